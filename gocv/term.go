package main

// Hash-consed terms with a normalising constructor for every operator.
//
// Sorts are Bool, Int (mathematical integers; also references), Real (floats
// are treated as reals) and Array Int S.  Arithmetic terms are polynomials in
// canonical form; comparisons are normalised to p>=0, p>0 and p=0; selects
// over stores, lambdas and conditionals are pushed inwards, so that most
// obligations about array contents are reduced to ground arithmetic.

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
)

type Sort struct {
	K    byte // 'B','I','R','A'
	Elem *Sort
	arr  *Sort
}

var (
	BoolS = &Sort{K: 'B'}
	IntS  = &Sort{K: 'I'}
	RealS = &Sort{K: 'R'}
)

func ArrS(e *Sort) *Sort {
	if e.arr == nil {
		e.arr = &Sort{K: 'A', Elem: e}
	}
	return e.arr
}

func (s *Sort) String() string {
	switch s.K {
	case 'B':
		return "Bool"
	case 'I':
		return "Int"
	case 'R':
		return "Real"
	}
	return "(Array Int " + s.Elem.String() + ")"
}

type Op uint8

const (
	OVar  Op = iota
	OBVar    // bound variable
	OTrue
	OFalse
	ONot
	OAnd
	OOr
	OEq0 // poly = 0
	OGe0 // poly >= 0
	OGt0 // poly > 0 (Real only)
	OIff // bool equality
	OEqA // array equality
	OIte
	OPoly
	OSelect
	OStore
	OLambda
	OApp
	OForall
	OExists
)

type Mono struct {
	C *big.Rat
	A []*Term
}

type Term struct {
	id     int
	op     Op
	sort   *Sort
	args   []*Term
	name   string
	mons   []Mono
	bh     int  // maximal binder height inside
	nonneg bool // known to be >= 0
	attr   byte // for heap variables: 'r' refs/'n' non-negative contents, in the initial heap
	fv     map[*Term]bool
}

var terms = map[string]*Term{}
var termSeq int

// perturb renumbers terms, to test that proofs do not depend on term order.
var perturb, _ = strconv.Atoi(os.Getenv("GOCV_PERTURB"))

func intern(key string, mk func() *Term) *Term {
	if t, ok := terms[key]; ok {
		return t
	}
	t := mk()
	termSeq++
	t.id = termSeq
	if perturb != 0 && baseTerms != nil {
		t.id = (termSeq*perturb)&0x3fffffff | 1<<30
	}
	for _, a := range t.args {
		if a.bh > t.bh {
			t.bh = a.bh
		}
	}
	for _, m := range t.mons {
		for _, a := range m.A {
			if a.bh > t.bh {
				t.bh = a.bh
			}
		}
	}
	terms[key] = t
	return t
}

func ids(ts []*Term) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(strconv.Itoa(t.id))
	}
	return b.String()
}

func mkRaw(op Op, s *Sort, name string, args ...*Term) *Term {
	key := fmt.Sprintf("%d|%s|%s|%s", op, s, name, ids(args))
	return intern(key, func() *Term { return &Term{op: op, sort: s, name: name, args: args} })
}

var True = mkRaw(OTrue, BoolS, "")
var False = mkRaw(OFalse, BoolS, "")

func Var(name string, s *Sort) *Term { return mkRaw(OVar, s, name) }
func VarNN(name string, s *Sort) *Term {
	v := mkRaw(OVar, s, name)
	v.nonneg = true
	return v
}
func BVar(name string, s *Sort) *Term { return mkRaw(OBVar, s, name) }

var bvSeq int

func freshBV(s *Sort) *Term { bvSeq++; return BVar(fmt.Sprintf("b!%d", bvSeq), s) }

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

// ---------- polynomials ----------

func ratI(n int64) *big.Rat { return new(big.Rat).SetInt64(n) }

func monoKey(m Mono) string { return ids(m.A) }

func isExp(t *Term) bool { return t.op == OApp && t.name == "exp" }

// cancelExp drops exp(t)*exp(-t) from a monomial.
func cancelExp(m Mono) Mono {
	n := 0
	for _, a := range m.A {
		if isExp(a) {
			n++
		}
	}
	if n < 2 {
		return m
	}
	as := append([]*Term(nil), m.A...)
	for i := 0; i < len(as); i++ {
		if !isExp(as[i]) {
			continue
		}
		ng := Neg(as[i].args[0])
		for j := i + 1; j < len(as); j++ {
			if isExp(as[j]) && as[j].args[0] == ng {
				as = append(as[:j:j], as[j+1:]...)
				as = append(as[:i:i], as[i+1:]...)
				i--
				break
			}
		}
	}
	return Mono{m.C, as}
}

func mkPoly(s *Sort, ms []Mono) *Term {
	if s == RealS {
		copied := false
		for i := range ms {
			if c := cancelExp(ms[i]); len(c.A) != len(ms[i].A) {
				if !copied {
					ms = append([]Mono(nil), ms...)
					copied = true
				}
				ms[i] = c
			}
		}
	}
	// merge
	acc := map[string]int{}
	var out []Mono
	for _, m := range ms {
		k := monoKey(m)
		if i, ok := acc[k]; ok {
			out[i].C = new(big.Rat).Add(out[i].C, m.C)
		} else {
			acc[k] = len(out)
			out = append(out, Mono{m.C, m.A})
		}
	}
	res := out[:0]
	for _, m := range out {
		if m.C.Sign() != 0 {
			if s == IntS && !m.C.IsInt() {
				panic("integer term with a fractional coefficient")
			}
			res = append(res, m)
		}
	}
	sort.Slice(res, func(i, j int) bool {
		a, b := res[i].A, res[j].A
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for k := range a {
			if a[k].id != b[k].id {
				return a[k].id < b[k].id
			}
		}
		return false
	})
	if len(res) == 1 && len(res[0].A) == 1 && res[0].C.Cmp(ratI(1)) == 0 {
		return res[0].A[0]
	}
	var b strings.Builder
	b.WriteString("P")
	b.WriteByte(s.K)
	for _, m := range res {
		b.WriteByte('|')
		b.WriteString(m.C.RatString())
		b.WriteByte(':')
		b.WriteString(monoKey(m))
	}
	return intern(b.String(), func() *Term { return &Term{op: OPoly, sort: s, mons: append([]Mono(nil), res...)} })
}

func Num(s *Sort, r *big.Rat) *Term { return mkPoly(s, []Mono{{r, nil}}) }
func Int(n int64) *Term             { return Num(IntS, ratI(n)) }
func RealN(n int64) *Term           { return Num(RealS, ratI(n)) }

func (t *Term) isNum() (*big.Rat, bool) {
	if t.op == OPoly {
		if len(t.mons) == 0 {
			return ratI(0), true
		}
		if len(t.mons) == 1 && len(t.mons[0].A) == 0 {
			return t.mons[0].C, true
		}
	}
	return nil, false
}

func (t *Term) isInt() (int64, bool) {
	if r, ok := t.isNum(); ok && r.IsInt() && r.Num().IsInt64() {
		return r.Num().Int64(), true
	}
	return 0, false
}

func polyOf(t *Term) []Mono {
	if t.op == OPoly {
		return t.mons
	}
	return []Mono{{ratI(1), []*Term{t}}}
}

func Add(ts ...*Term) *Term {
	s := ts[0].sort
	var ms []Mono
	for _, t := range ts {
		if t.sort != s {
			panic(fmt.Sprintf("Add sorts %s %s: %s + %s", s, t.sort, ts[0], t))
		}
		ms = append(ms, polyOf(t)...)
	}
	return mkPoly(s, ms)
}

func Scale(t *Term, c *big.Rat) *Term {
	var ms []Mono
	for _, m := range polyOf(t) {
		ms = append(ms, Mono{new(big.Rat).Mul(m.C, c), m.A})
	}
	return mkPoly(t.sort, ms)
}

func Neg(t *Term) *Term    { return Scale(t, ratI(-1)) }
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }

func mulAtoms(a, b []*Term) []*Term {
	r := make([]*Term, 0, len(a)+len(b))
	r = append(r, a...)
	r = append(r, b...)
	nexp := 0
	for _, t := range r {
		if t.op == OApp && t.name == "exp" {
			nexp++
		}
	}
	if nexp >= 2 {
		r = mergeExps(r)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// expMono is the only monomial of the argument of an exp atom.
func expMono(t *Term) Mono {
	x := t.args[0]
	if x.op == OPoly {
		return x.mons[0]
	}
	return Mono{ratI(1), []*Term{x}}
}

// mergeExps merges exponentials of proportional arguments: exp(ax)exp(bx) is
// exp((a+b)x).
func mergeExps(r []*Term) []*Term {
	var out []*Term
	var keys []string
	by := map[string]*Mono{}
	for _, t := range r {
		if t.op != OApp || t.name != "exp" {
			out = append(out, t)
			continue
		}
		m := expMono(t)
		k := ids(m.A)
		if e := by[k]; e != nil {
			e.C = new(big.Rat).Add(e.C, m.C)
			continue
		}
		by[k] = &Mono{m.C, m.A}
		keys = append(keys, k)
	}
	for _, k := range keys {
		if m := by[k]; m.C.Sign() != 0 {
			out = append(out, Exp(mkPoly(RealS, []Mono{*m})))
		}
	}
	return out
}

// expShift is the product of exponentials that makes the smallest exponent of
// every exponential in the sum zero.
func expShift(p *Term) *Term {
	type ent struct {
		m     Mono
		count int
		min   *big.Rat
	}
	by := map[string]*ent{}
	var keys []string
	for _, mo := range p.mons {
		for _, t := range mo.A {
			if t.op != OApp || t.name != "exp" {
				continue
			}
			m := expMono(t)
			k := ids(m.A)
			e := by[k]
			if e == nil {
				e = &ent{m: m, min: m.C}
				by[k] = e
				keys = append(keys, k)
			}
			e.count++
			if m.C.Cmp(e.min) < 0 {
				e.min = m.C
			}
		}
	}
	res := RealN(1)
	for _, k := range keys {
		e := by[k]
		mn := e.min
		if e.count < len(p.mons) && mn.Sign() > 0 {
			mn = ratI(0)
		}
		if mn.Sign() != 0 {
			res = Mul(res, Exp(mkPoly(RealS, []Mono{{new(big.Rat).Neg(mn), e.m.A}})))
		}
	}
	return res
}

func Mul(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Mul sorts %s * %s", a, b))
	}
	pa, pb := polyOf(a), polyOf(b)
	var ms []Mono
	for _, x := range pa {
		for _, y := range pb {
			ms = append(ms, Mono{new(big.Rat).Mul(x.C, y.C), mulAtoms(x.A, y.A)})
		}
	}
	return mkPoly(a.sort, ms)
}

// Inv is the total reciprocal with Inv(0)=0 (division by zero is outside the
// contracts; the convention keeps Inv multiplicative).
func Inv(t *Term) *Term {
	if r, ok := t.isNum(); ok {
		if r.Sign() == 0 {
			return RealN(0)
		}
		return Num(RealS, new(big.Rat).Inv(r))
	}
	if t.op == OPoly && len(t.mons) == 1 {
		m := t.mons[0]
		res := Num(RealS, new(big.Rat).Inv(m.C))
		for _, a := range m.A {
			res = Mul(res, Inv(a))
		}
		return res
	}
	if t.op == OApp && t.name == "inv" {
		return t.args[0]
	}
	if t.op == OApp && t.name == "exp" {
		return Exp(Neg(t.args[0]))
	}
	// factor out the leading coefficient so that proportional sums share one
	// reciprocal
	if t.op == OPoly {
		if sh := expShift(t); sh != RealN(1) {
			return Mul(sh, Inv(Mul(t, sh)))
		}
		lead := t.mons[len(t.mons)-1].C
		if lead.Cmp(ratI(1)) != 0 {
			return Mul(Num(RealS, new(big.Rat).Inv(lead)), Inv(Scale(t, new(big.Rat).Inv(lead))))
		}
	}
	return mkRaw(OApp, RealS, "inv", t)
}

func Div(a, b *Term) *Term { return Mul(a, Inv(b)) }

func ToReal(t *Term) *Term {
	if t.sort == RealS {
		return t
	}
	var ms []Mono
	for _, m := range polyOf(t) {
		var as []*Term
		for _, a := range m.A {
			var x *Term
			if a.op == OIte {
				x = Ite(a.args[0], ToReal(a.args[1]), ToReal(a.args[2]))
				if x.op == OPoly {
					x2 := mkRaw(OApp, RealS, "to_real", a)
					x = x2
				}
			} else {
				x = mkRaw(OApp, RealS, "to_real", a)
			}
			if a.nonneg {
				x.nonneg = true
			}
			as = append(as, x)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		ms = append(ms, Mono{m.C, as})
	}
	return mkPoly(RealS, ms)
}

func App(name string, s *Sort, args ...*Term) *Term {
	if name == "tval" && len(args) == 1 {
		x := args[0]
		switch {
		case x.op == OIte:
			return Ite(x.args[0], App(name, s, x.args[1]), App(name, s, x.args[2]))
		case isDenseRef(x):
			return x
		case isOpRef(x):
			return x.args[len(x.args)-1]
		case x == Int(0):
			return x // no value
		}
	}
	if name == "u.isMatrix" && len(args) == 1 {
		if x := args[0]; x.op == OIte {
			return Ite(x.args[0], App(name, s, x.args[1]), App(name, s, x.args[2]))
		} else if isDenseRef(x) {
			return Int(1)
		} else if isOpRef(x) {
			return Int(0)
		}
	}
	return mkRaw(OApp, s, name, args...)
}

// Value objects: a matrix (or the operator that holds it) that a contract
// returns is named by a constructor that carries its dimensions, precision and
// elements.  Memory at such a reference holds exactly these unless a later
// store changes it, so creating one stores nothing.
//
//	objN.vD(loop indices..., rows, cols, dtype, elements)
//	objN.vO(loop indices..., value)
func isValRef(t *Term) bool {
	return isCtor(t) && strings.HasPrefix(t.name, "c!obj") && strings.HasSuffix(t.name, ".vD")
}

func isOpRef(t *Term) bool {
	return isCtor(t) && strings.HasPrefix(t.name, "c!obj") && strings.HasSuffix(t.name, ".vO")
}

// idArgs: how many arguments of a constructor identify the object.
func idArgs(t *Term) int {
	switch {
	case isValRef(t):
		return len(t.args) - 4
	case isOpRef(t):
		return len(t.args) - 1
	}
	return len(t.args)
}

// valField reads the initial memory at a value object.
func valField(a, i *Term) *Term {
	if a.op != OVar || !strings.HasPrefix(a.name, "H0.") {
		return nil
	}
	if i.op == OIte && hasValRef(i) {
		return Ite(i.args[0], Select(a, i.args[1]), Select(a, i.args[2]))
	}
	if i.op == OApp && len(i.args) == 1 && isCtor(i) && strings.HasPrefix(i.name, "c!arr.mat.Dense.data") && a.name == "H0.mem.R" {
		if x := i.args[0]; isValRef(x) {
			return x.args[len(x.args)-1]
		} else if x.op == OIte && hasValRef(x) {
			return Ite(x.args[0], Select(a, ctor(i.name[2:], x.args[1])), Select(a, ctor(i.name[2:], x.args[2])))
		}
	}
	if isValRef(i) {
		n := len(i.args)
		switch a.name {
		case "H0.rows":
			return i.args[n-4]
		case "H0.cols":
			return i.args[n-3]
		case "H0.dtype":
			return i.args[n-2]
		case "H0.tag":
			return ctor("type.*mat.Dense")
		case "H0.F.mat.Dense.grad", "H0.F.mat.Dense.data.capx", "H0.F.mat.Dense.shape.capx":
			return Int(0)
		case "H0.F.mat.Dense.requiresGrad":
			return False
		}
	}
	if isOpRef(i) {
		switch a.name {
		case "H0.tag":
			return ctor("type.*ag.Operator")
		case "H0.F.ag.Operator.value":
			return i.args[len(i.args)-1]
		}
	}
	return nil
}

func hasValRef(t *Term) bool {
	if t.op == OIte {
		return hasValRef(t.args[1]) || hasValRef(t.args[2])
	}
	return isValRef(t) || isOpRef(t)
}

// Exp normalises exp(0)=1 and exp(a+b) for a sum that contains a logarithm is
// left alone; products of exponentials are not merged.
func Exp(t *Term) *Term {
	if r, ok := t.isNum(); ok && r.Sign() == 0 {
		return RealN(1)
	}
	if t.op == OApp && t.name == "log" {
		// exp(log x) = x only for x>0: left to the solver's lemma
	}
	if t.op == OPoly && len(t.mons) > 1 {
		res := RealN(1)
		for _, m := range t.mons {
			res = Mul(res, Exp(mkPoly(RealS, []Mono{m})))
		}
		return res
	}
	return mkRaw(OApp, RealS, "exp", t)
}

func Pow(b, e *Term) *Term {
	if n, ok := e.isInt(); ok && n >= 0 && n <= 4 {
		r := RealN(1)
		for i := int64(0); i < n; i++ {
			r = Mul(r, b)
		}
		return r
	}
	if n, ok := e.isInt(); ok && n == -1 {
		return Inv(b)
	}
	if r, ok := e.isNum(); ok && r.Cmp(big.NewRat(1, 2)) == 0 {
		return Sqrt(b)
	}
	if r, ok := e.isNum(); ok && r.Cmp(big.NewRat(-1, 2)) == 0 {
		return Inv(Sqrt(b))
	}
	if n, ok := b.isInt(); ok && n == 1 {
		return RealN(1)
	}
	return mkRaw(OApp, RealS, "pow", b, e)
}

func Abs(t *Term) *Term {
	return Ite(Ge(t, Num(t.sort, ratI(0))), t, Neg(t))
}

// ---------- booleans ----------

func Not(t *Term) *Term {
	switch t.op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return t.args[0]
	case OGe0:
		if t.args[0].sort == IntS {
			return ge0(Sub(Neg(t.args[0]), Int(1)))
		}
		return gt0(Neg(t.args[0]))
	case OGt0:
		return ge0(Neg(t.args[0]))
	case OAnd:
		var as []*Term
		for _, a := range t.args {
			as = append(as, Not(a))
		}
		return Or(as...)
	case OOr:
		var as []*Term
		for _, a := range t.args {
			as = append(as, Not(a))
		}
		return And(as...)
	case OIte:
		return Ite(t.args[0], Not(t.args[1]), Not(t.args[2]))
	}
	return mkRaw(ONot, BoolS, "", t)
}

func And(ts ...*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case OTrue:
			return true
		case OFalse:
			return false
		case OAnd:
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mkRaw(OAnd, BoolS, "", out...)
}

func Or(ts ...*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case OFalse:
			return true
		case OTrue:
			return false
		case OOr:
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if t.op == ONot && seen[t.args[0].id] {
			return false
		}
		if t.op != OAnd && t.op != ONot && seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mkRaw(OOr, BoolS, "", out...)
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }

// normalise an Int polynomial constraint by its integer content
func scaleInt(p *Term, eq bool) *Term {
	if len(p.mons) == 0 && p.op == OPoly {
		return p
	}
	ms := polyOf(p)
	l := big.NewInt(1)
	for _, m := range ms {
		d := m.C.Denom()
		g := new(big.Int).GCD(nil, nil, l, d)
		l = new(big.Int).Mul(l, new(big.Int).Div(d, g))
	}
	var g *big.Int
	for _, m := range ms {
		if len(m.A) == 0 && p.sort == IntS {
			continue
		}
		n := new(big.Int).Mul(m.C.Num(), new(big.Int).Div(l, m.C.Denom()))
		n.Abs(n)
		if g == nil {
			g = n
		} else {
			g = new(big.Int).GCD(nil, nil, g, n)
		}
	}
	if g == nil || g.Sign() == 0 {
		return p
	}
	f := new(big.Rat).SetFrac(l, g)
	if p.sort == IntS && !eq {
		// floor the constant
		var out []Mono
		for _, m := range ms {
			m = Mono{new(big.Rat).Mul(m.C, f), m.A}
			if len(m.A) == 0 && !m.C.IsInt() {
				fl := new(big.Int).Div(m.C.Num(), m.C.Denom()) // floor for positive denom (Euclidean)
				out = append(out, Mono{new(big.Rat).SetInt(fl), nil})
			} else {
				out = append(out, m)
			}
		}
		return mkPoly(IntS, out)
	}
	if p.sort == IntS {
		for _, m := range ms {
			if len(m.A) == 0 && !new(big.Rat).Mul(m.C, f).IsInt() {
				return Int(1) // no integer solution
			}
		}
	}
	return Scale(p, f)
}

// sign information: +1 if p>0 known, 0 if p>=0 known, -1 unknown
func knownNonneg(p *Term) (nonneg, pos bool) {
	if p.op == OPoly {
		nonneg = true
		for _, m := range p.mons {
			if len(m.A) == 0 {
				if m.C.Sign() < 0 {
					return false, false
				}
				pos = true
				continue
			}
			if m.C.Sign() < 0 {
				return false, false
			}
			for i, a := range m.A {
				if !a.nonneg && !isExp(a) {
					// squares
					if i+1 < len(m.A) && m.A[i+1] == a && len(m.A) == 2 {
						break
					}
					return false, false
				}
			}
		}
		return
	}
	return p.nonneg, p.op == OApp && p.name == "exp"
}

func ge0(p *Term) *Term {
	if r, ok := p.isNum(); ok {
		return Bool(r.Sign() >= 0)
	}
	p = scaleInt(p, false)
	if nn, _ := knownNonneg(p); nn {
		return True
	}
	if n, pos := knownNonneg(Neg(p)); n && pos {
		return False
	}
	if p.op == OIte && constish(p) {
		return Ite(p.args[0], ge0(p.args[1]), ge0(p.args[2]))
	}
	if b := infCmp(p); b != nil {
		return b
	}
	if c, x, y := infIte(p); c != nil {
		return Ite(c, ge0(x), ge0(y))
	}
	return mkRaw(OGe0, BoolS, "", p)
}

func gt0(p *Term) *Term {
	if r, ok := p.isNum(); ok {
		return Bool(r.Sign() > 0)
	}
	if p.sort == IntS {
		return ge0(Sub(p, Int(1)))
	}
	p = scaleInt(p, false)
	if _, pos := knownNonneg(p); pos {
		if nn, _ := knownNonneg(p); nn {
			return True
		}
	}
	if nn, _ := knownNonneg(Neg(p)); nn {
		return False
	}
	if b := infCmp(p); b != nil {
		return b
	}
	if c, x, y := infIte(p); c != nil {
		return Ite(c, gt0(x), gt0(y))
	}
	return mkRaw(OGt0, BoolS, "", p)
}

// infinity atom: a linear occurrence dominates any other finite term; nil when
// the rest is not known to be finite.
func infCmp(p *Term) *Term {
	if p.sort != RealS {
		return nil
	}
	for _, m := range polyOf(p) {
		if len(m.A) == 1 && m.A[0].op == OVar && m.A[0].name == "inf!" {
			if !finiteInputs(Sub(p, Scale(m.A[0], m.C))) {
				return nil
			}
			return Bool(m.C.Sign() > 0)
		}
	}
	return nil
}

// ctxSimp simplifies t under the literals that hold where each part is used.
func ctxSimp(t *Term) *Term {
	budget := 20000
	known := map[*Term]bool{}
	over := false
	// with runs f while the literals of c are known
	with := func(c *Term, f func()) {
		var add []*Term
		ls := []*Term{c}
		if c.op == OAnd {
			ls = c.args
		}
		for _, l := range ls {
			if l != True && !known[l] {
				known[l] = true
				add = append(add, l)
			}
		}
		f()
		for _, l := range add {
			delete(known, l)
		}
	}
	var do func(x *Term) *Term
	conj := func(args []*Term, neg bool) []*Term {
		as := append([]*Term(nil), args...)
		for i := range as {
			var oth []*Term
			for j, a := range as {
				if j != i {
					if neg {
						a = Not(a)
					}
					oth = append(oth, a)
				}
			}
			with(And(oth...), func() { as[i] = do(as[i]) })
		}
		return as
	}
	do = func(x *Term) *Term {
		budget--
		if budget < 0 {
			over = true
			return x
		}
		if x.sort == BoolS {
			if known[x] {
				return True
			}
			if x != True && x != False && known[Not(x)] {
				return False
			}
		}
		switch x.op {
		case OVar, OBVar, OTrue, OFalse:
			return x
		case OAnd:
			return And(conj(x.args, false)...)
		case OOr:
			return Or(conj(x.args, true)...)
		case OIte:
			c := do(x.args[0])
			if c == True {
				return do(x.args[1])
			}
			if c == False {
				return do(x.args[2])
			}
			a, b := x.args[1], x.args[2]
			with(c, func() { a = do(a) })
			with(Not(c), func() { b = do(b) })
			return Ite(c, a, b)
		}
		return rebuild(x, do)
	}
	r := do(t)
	if over {
		return t
	}
	return r
}

// infIte splits a sum with one conditional that may be infinite.
func infIte(p *Term) (c, x, y *Term) {
	if p.sort != RealS {
		return nil, nil, nil
	}
	leaf := func(t *Term) bool {
		for _, m := range polyOf(t) {
			if len(m.A) == 1 && m.A[0].op == OVar && m.A[0].name == "inf!" {
				return true
			}
		}
		return false
	}
	for _, m := range polyOf(p) {
		if len(m.A) != 1 || m.A[0].op != OIte {
			continue
		}
		t := m.A[0]
		if leaf(t.args[1]) || leaf(t.args[2]) {
			rest := Sub(p, Scale(t, m.C))
			return t.args[0], Add(rest, Scale(t.args[1], m.C)), Add(rest, Scale(t.args[2], m.C))
		}
	}
	return nil, nil, nil
}

// finiteInputs: every real in p comes from the parameters or from the initial
// heap, where floats are assumed to be finite.  The content of arrays allocated
// since then and of loop variables may well be infinite.
func finiteInputs(p *Term) bool {
	for v := range freeOf(p) {
		s := v.sort
		for s.K == 'A' {
			s = s.Elem
		}
		if s != RealS || strings.HasPrefix(v.name, "H0.") || strings.HasPrefix(v.name, "p.") {
			continue
		}
		return false
	}
	return !hasFreshApp(p)
}

var freshAppMemo = map[*Term]bool{}

// hasFreshApp: p contains reals of iterations or calls whose values are unknown.
func hasFreshApp(p *Term) bool {
	if len(p.args) == 0 {
		return false
	}
	if r, ok := freshAppMemo[p]; ok {
		return r
	}
	r := false
	if p.op == OApp && strings.Contains(p.name, "!") {
		s := p.sort
		for s.K == 'A' {
			s = s.Elem
		}
		r = s == RealS
	}
	for _, a := range p.args {
		r = r || hasFreshApp(a)
	}
	freshAppMemo[p] = r
	return r
}

// conditional with numeric leaves
func constish(t *Term) bool {
	if t.op != OIte {
		_, ok := t.isNum()
		return ok
	}
	return constish(t.args[1]) && constish(t.args[2])
}

func eq0(p *Term) *Term {
	if r, ok := p.isNum(); ok {
		return Bool(r.Sign() == 0)
	}
	p = scaleInt(p, true)
	ms := polyOf(p)
	if p.sort == IntS {
		for _, m := range ms {
			if !m.C.IsInt() {
				return False // gcd does not divide the constant
			}
		}
	}
	if ms[len(ms)-1].C.Sign() < 0 {
		p = Neg(p)
	}
	if nn, pos := knownNonneg(p); nn && pos {
		return False
	}
	if nn, pos := knownNonneg(Neg(p)); nn && pos {
		return False
	}
	if p.op == OIte && constish(p) {
		return Ite(p.args[0], eq0(p.args[1]), eq0(p.args[2]))
	}
	if p.op == OPoly && len(p.mons) == 2 && len(p.mons[0].A) == 0 && len(p.mons[1].A) == 1 && constish(p.mons[1].A[0]) {
		it := p.mons[1].A[0]
		c0, c1 := Num(p.sort, p.mons[0].C), p.mons[1].C
		return Ite(it.args[0], eq0(Add(c0, Scale(it.args[1], c1))), eq0(Add(c0, Scale(it.args[2], c1))))
	}
	if infCmp(p) != nil {
		return False
	}
	if c, x, y := infIte(p); c != nil {
		return Ite(c, eq0(x), eq0(y))
	}
	if p.sort == RealS && clearsToZero(p, knownPos) {
		return True
	}
	if p.sort == IntS {
		if r := ctorEq0(p); r != nil {
			return r
		}
		if r := unitProd(p); r != nil {
			return r
		}
	}
	return mkRaw(OEq0, BoolS, "", p)
}

// unitProd: a product of nonnegative integers is 1 exactly when each factor is.
func unitProd(p *Term) *Term {
	if p.op != OPoly || len(p.mons) != 2 || len(p.mons[0].A) != 0 || len(p.mons[1].A) < 2 {
		return nil
	}
	if s := new(big.Rat).Add(p.mons[0].C, p.mons[1].C); s.Sign() != 0 {
		return nil
	}
	r := True
	for _, a := range p.mons[1].A {
		if !a.nonneg {
			return nil
		}
		r = And(r, eq0(Sub(a, Int(1))))
	}
	return r
}

// knownPos: a sum of nonnegative terms of which one is positive.
func knownPos(p *Term) bool {
	if _, pos := knownNonneg(p); pos {
		return true
	}
	if nn, _ := knownNonneg(p); !nn || p.op != OPoly {
		return false
	}
	for _, m := range p.mons {
		all := true
		for _, a := range m.A {
			all = all && isExp(a)
		}
		if all {
			return true
		}
	}
	return false
}

// clearsToZero multiplies p by the denominators nz accepts until none is left
// and reports whether the result is zero: a sufficient test of p = 0.
func clearsToZero(p *Term, nz func(*Term) bool) bool {
	for round := 0; round < 12; round++ {
		if p.op != OPoly || len(p.mons) < 2 || len(p.mons) > 80 {
			break
		}
		var den *Term
		for _, m := range p.mons {
			for _, a := range m.A {
				if a.op == OApp && a.name == "inv" && (den == nil || a.id > den.id) && nz(a.args[0]) {
					den = a
				}
			}
		}
		if den == nil {
			break
		}
		max := 0
		cnt := make([]int, len(p.mons))
		for i, m := range p.mons {
			for _, a := range m.A {
				if a == den {
					cnt[i]++
				}
			}
			if cnt[i] > max {
				max = cnt[i]
			}
		}
		r := RealN(0)
		for i, m := range p.mons {
			var rest []*Term
			for _, a := range m.A {
				if a != den {
					rest = append(rest, a)
				}
			}
			t := mkPoly(RealS, []Mono{{m.C, rest}})
			for k := cnt[i]; k < max; k++ {
				t = Mul(t, den.args[0])
			}
			r = Add(r, t)
		}
		p = r
	}
	n, ok := p.isNum()
	return ok && n.Sign() == 0
}

func isCtor(t *Term) bool { return t.op == OApp && strings.HasPrefix(t.name, "c!") }

func preborn(t *Term) bool {
	for t.op == OApp && t.name == "tval" {
		t = t.args[0]
	}
	rv := rootVar(t)
	return rv.op == OVar && rv.attr != 0
}

// ctorEq0 decides p = 0 when p compares a constructor term (a fresh object,
// an owned array, a string or function constant) with something else.
func ctorEq0(p *Term) *Term {
	ms := polyOf(p)
	hasC := false
	for _, m := range ms {
		if len(m.A) == 1 && isCtor(m.A[0]) {
			hasC = true
		}
	}
	if !hasC {
		return nil
	}
	if len(ms) == 1 {
		return False // constructor = nil
	}
	if len(ms) != 2 {
		return nil
	}
	if len(ms[0].A) == 0 {
		return False // constructor = number
	}
	if len(ms[0].A) != 1 || len(ms[1].A) != 1 {
		return nil
	}
	a, b := ms[0].A[0], ms[1].A[0]
	if !isCtor(a) {
		a, b = b, a
	}
	if b.op == OIte && b.sort == IntS {
		return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
	}
	if isCtor(b) {
		if a.name != b.name {
			return False
		}
		r, ids := True, idArgs(a)
		for i := range a.args {
			x, y := a.args[i], b.args[i]
			if i >= ids && x != y {
				// the identifying arguments are equal: one index for both
				for j := 0; j < ids; j++ {
					u, w := a.args[j], b.args[j]
					if w.op == OVar && !occurs(w, u) {
						u, w = w, u
					}
					if u != w && u.op == OVar && !occurs(u, w) {
						x, y = subst1(x, u, w), subst1(y, u, w)
					}
				}
			}
			if x.sort.K == 'A' && x != y {
				v := freshBV(IntS)
				r = And(r, Forall([]*Term{v}, Eq(Select(x, v), Select(y, v))))
				continue
			}
			r = And(r, Eq(x, y))
		}
		return r
	}
	if preborn(b) {
		return False
	}
	if b.op == OVar && strings.HasPrefix(b.name, "rb.") && strings.HasPrefix(a.name, "c!obj") {
		// a reference a call returned before the object was allocated
		n, e1 := strconv.Atoi(b.name[strings.LastIndexByte(b.name, '!')+1:])
		m, e2 := strconv.Atoi(objNum(a.name))
		if e1 == nil && e2 == nil && m > n {
			return False
		}
	}
	if b.op == OVar && b.name == "q!pre" && strings.HasPrefix(a.name, "c!obj") {
		return False
	}
	return nil
}

func objNum(name string) string {
	name = strings.TrimPrefix(name, "c!obj")
	if i := strings.IndexByte(name, '.'); i >= 0 {
		name = name[:i]
	}
	return name
}

// IsCtor tests for a constructor, CtorArg projects one of its arguments.
func IsCtor(name string, t *Term) *Term {
	switch {
	case t.op == OIte:
		return Ite(t.args[0], IsCtor(name, t.args[1]), IsCtor(name, t.args[2]))
	case isCtor(t):
		return Bool(t.name == "c!"+name)
	case t.op == OPoly && len(t.mons) == 0, preborn(t):
		return False
	case t.op == OVar && t.name == "q!pre" && strings.HasPrefix(name, "obj"):
		return False
	}
	if _, ok := t.isNum(); ok {
		return False
	}
	return mkRaw(OApp, BoolS, "is:"+name, t)
}

func CtorArg(name string, i int, t *Term) *Term {
	if t.op == OIte {
		return Ite(t.args[0], CtorArg(name, i, t.args[1]), CtorArg(name, i, t.args[2]))
	}
	if isCtor(t) && t.name == "c!"+name && i < len(t.args) {
		return t.args[i]
	}
	return mkRaw(OApp, IntS, fmt.Sprintf("arg:%d:%s", i, name), t)
}

func Ge(a, b *Term) *Term { return ge0(Sub(a, b)) }
func Gt(a, b *Term) *Term { return gt0(Sub(a, b)) }
func Le(a, b *Term) *Term { return Ge(b, a) }
func Lt(a, b *Term) *Term { return Gt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts: %s = %s", a, b))
	}
	switch a.sort.K {
	case 'B':
		return Iff(a, b)
	case 'A':
		if a.id > b.id {
			a, b = b, a
		}
		return mkRaw(OEqA, BoolS, "", a, b)
	}
	if a.op == OIte && b.op != OIte {
		x, y := Eq(a.args[1], b), Eq(a.args[2], b)
		if x.op == OTrue || x.op == OFalse || y.op == OTrue || y.op == OFalse {
			return Ite(a.args[0], x, y)
		}
	}
	if b.op == OIte && a.op != OIte {
		return Eq2(b, a)
	}
	return eq0(Sub(a, b))
}

func Eq2(a, b *Term) *Term {
	x, y := Eq(a.args[1], b), Eq(a.args[2], b)
	if x.op == OTrue || x.op == OFalse || y.op == OTrue || y.op == OFalse {
		return Ite(a.args[0], x, y)
	}
	return eq0(Sub(a, b))
}

func Iff(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a == True {
		return b
	}
	if b == True {
		return a
	}
	if a == False {
		return Not(b)
	}
	if b == False {
		return Not(a)
	}
	if a == Not(b) {
		return False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkRaw(OIff, BoolS, "", a, b)
}

// hasIteOn: t decides on c, at most depth levels below t.
func hasIteOn(t, c *Term, depth int) bool {
	if t.op == OIte && t.args[0] == c {
		return true
	}
	if depth == 0 || t.op == OLambda {
		return false
	}
	for _, a := range t.args {
		if hasIteOn(a, c, depth-1) {
			return true
		}
	}
	for _, m := range t.mons {
		for _, a := range m.A {
			if hasIteOn(a, c, depth-1) {
				return true
			}
		}
	}
	return false
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ite sorts %s / %s", a, b))
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort == BoolS {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	// ite(c, ite(c,x,y), b)
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	nc := Not(c)
	if a.op == OIte && a.args[0] == nc {
		a = a.args[2]
	}
	if b.op == OIte && b.args[0] == nc {
		b = b.args[1]
	}
	if a == b {
		return a
	}
	if a.sort == IntS {
		// the same decision further down (sizes of converted matrices)
		if hasIteOn(a, c, 5) {
			return Ite(c, Subst(a, map[*Term]*Term{c: True}), b)
		}
		if hasIteOn(b, c, 5) {
			return Ite(c, a, Subst(b, map[*Term]*Term{c: False}))
		}
	}
	if a.op == OIte && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	// canonical orientation
	if nc.op != ONot && nc.id < c.id {
		c, a, b = nc, b, a
	}
	t := mkRaw(OIte, a.sort, "", c, a, b)
	if (a.nonneg || numNonneg(a)) && (b.nonneg || numNonneg(b)) {
		t.nonneg = true
	}
	return t
}

func numNonneg(a *Term) bool {
	nn, _ := knownNonneg(a)
	return nn
}

// ---------- arrays ----------

func rootVar(t *Term) *Term {
	for t.op == OSelect {
		t = t.args[0]
	}
	return t
}

func Select(a, i *Term) *Term {
	if a.sort.K != 'A' {
		panic("select on " + a.String())
	}
	switch a.op {
	case OStore:
		e := Eq(a.args[1], i)
		if e == True {
			return a.args[2]
		}
		if e == False {
			return Select(a.args[0], i)
		}
		return Ite(e, a.args[2], Select(a.args[0], i))
	case OLambda:
		return subst1(a.args[1], a.args[0], i)
	case OIte:
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	}
	if a.op == OSelect && a.args[0].op == OVar && a.args[0].name == "H0.mem.I" && a.args[1].op == OApp && a.args[1].name == "c!arr.mat.Dense.shape.arr" {
		if n, ok := i.isInt(); ok && n == 0 {
			return Select(rowsH0(), a.args[1].args[0])
		} else if ok && n == 1 {
			return Select(colsH0(), a.args[1].args[0])
		}
	}
	if t := valField(a, i); t != nil {
		return t
	}
	t := mkRaw(OSelect, a.sort.Elem, "", a, i)
	if t.sort == IntS {
		if rv := rootVar(t); rv.op == OVar && rv.attr != 0 {
			t.nonneg = true
		}
	}
	return t
}

func Store(a, i, v *Term) *Term {
	if a.sort.Elem != v.sort {
		panic(fmt.Sprintf("store sort mismatch %s[..]=%s", a.sort, v.sort))
	}
	if a.op == OStore {
		e := Eq(a.args[1], i)
		if e == True {
			return Store(a.args[0], i, v)
		}
		// distinct positions in a fixed order
		if e == False && i.id < a.args[1].id {
			return mkRaw(OStore, a.sort, "", Store(a.args[0], i, v), a.args[1], a.args[2])
		}
	}
	if a.op != OIte && a.op != OLambda && a.op != OStore {
		if Select(a, i) == v {
			return a
		}
	}
	return mkRaw(OStore, a.sort, "", a, i, v)
}

// Lambda builds (lambda bv. body) with a canonical bound variable.
func Lambda(bv, body *Term) *Term {
	// eta
	if body.op == OSelect && body.args[1] == bv && !occurs(bv, body.args[0]) {
		return body.args[0]
	}
	h := body.bh + 1
	c := BVar(fmt.Sprintf("#%d", h), bv.sort)
	if bv != c {
		body = subst1(body, bv, c)
		for body.bh+1 != h {
			h = body.bh + 1
			c2 := BVar(fmt.Sprintf("#%d", h), bv.sort)
			body = subst1(body, c, c2)
			c = c2
		}
	}
	t := mkRaw(OLambda, ArrS(body.sort), "", c, body)
	if t.bh < h {
		t.bh = h
	}
	return t
}

func Forall(bvs []*Term, body *Term) *Term { return mkQuant(OForall, bvs, body) }
func Exists(bvs []*Term, body *Term) *Term { return mkQuant(OExists, bvs, body) }

// fewCases expands a quantifier over a range 0..c-1 with a small constant c.
func fewCases(op Op, b, body *Term) *Term {
	if b.sort != IntS || (op == OForall && body.op != OOr) || (op == OExists && body.op != OAnd) {
		return nil
	}
	lo, hi := false, int64(-1)
	for _, f := range body.args {
		if f.op != OGe0 {
			continue
		}
		p := f.args[0]
		var co, c int64
		ok := true
		for _, m := range polyOf(p) {
			if !m.C.IsInt() || !m.C.Num().IsInt64() {
				ok = false
				break
			}
			switch {
			case len(m.A) == 0:
				c = m.C.Num().Int64()
			case len(m.A) == 1 && m.A[0] == b:
				co = m.C.Num().Int64()
			default:
				ok = false
			}
		}
		if !ok {
			continue
		}
		if op == OForall { // negated bounds: -1-b >= 0, b-n >= 0
			if co == -1 && c == -1 {
				lo = true
			}
			if co == 1 && -c <= 4 && -c >= 0 {
				hi = -c
			}
		} else { // b >= 0, n-1-b >= 0
			if co == 1 && c == 0 {
				lo = true
			}
			if co == -1 && c+1 <= 4 && c+1 >= 0 {
				hi = c + 1
			}
		}
	}
	if !lo || hi < 0 {
		return nil
	}
	var r []*Term
	for i := int64(0); i < hi; i++ {
		r = append(r, subst1(body, b, Int(i)))
	}
	if op == OForall {
		return And(r...)
	}
	return Or(r...)
}

func mkQuant(op Op, bvs []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	for i := len(bvs) - 1; i >= 0; i-- {
		if !occurs(bvs[i], body) {
			continue
		}
		if t := fewCases(op, bvs[i], body); t != nil {
			body = t
			continue
		}
		h := body.bh + 1
		c := BVar(fmt.Sprintf("#%d", h), bvs[i].sort)
		if c != bvs[i] {
			body = subst1(body, bvs[i], c)
		}
		t := mkRaw(op, BoolS, "", c, body)
		if t.bh < h {
			t.bh = h
		}
		body = t
	}
	return body
}

// ---------- free variables and substitution ----------

func occurs(v, t *Term) bool {
	return freeOf(t)[v]
}

var emptyFV = map[*Term]bool{}

func freeOf(t *Term) map[*Term]bool {
	if t.fv != nil {
		return t.fv
	}
	switch t.op {
	case OVar, OBVar:
		t.fv = map[*Term]bool{t: true}
		return t.fv
	}
	var acc map[*Term]bool
	owned := false
	addAll := func(m map[*Term]bool) {
		if len(m) == 0 {
			return
		}
		if acc == nil {
			acc = m
			return
		}
		for k := range m {
			if !acc[k] {
				if !owned {
					c := make(map[*Term]bool, len(acc)+len(m))
					for x := range acc {
						c[x] = true
					}
					acc = c
					owned = true
				}
				acc[k] = true
			}
		}
	}
	if t.op == OLambda || t.op == OForall || t.op == OExists {
		m := freeOf(t.args[1])
		if m[t.args[0]] {
			c := make(map[*Term]bool, len(m))
			for x := range m {
				if x != t.args[0] {
					c[x] = true
				}
			}
			m = c
		}
		acc = m
	} else {
		for _, a := range t.args {
			addAll(freeOf(a))
		}
		for _, m := range t.mons {
			for _, a := range m.A {
				addAll(freeOf(a))
			}
		}
	}
	if acc == nil {
		acc = emptyFV
	}
	t.fv = acc
	return acc
}

func subst1(t, v, by *Term) *Term { return Subst(t, map[*Term]*Term{v: by}) }

func Subst(t *Term, m map[*Term]*Term) *Term {
	return (&subster{m: m, memo: map[*Term]*Term{}}).do(t)
}

type subster struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
	// lower has what is known about the polynomials of inequalities
	lower lowerBounds
}

// lowerBounds maps a polynomial without its constant to the greatest number
// that it is known to reach.
type lowerBounds map[*Term]*big.Rat

// splitConst takes the constant off a polynomial.
func splitConst(p *Term) (*Term, *big.Rat) {
	c := new(big.Rat)
	if p.op != OPoly {
		return p, c
	}
	var rest []Mono
	for _, m := range p.mons {
		if len(m.A) == 0 {
			c.Set(m.C)
		} else {
			rest = append(rest, m)
		}
	}
	if len(rest) == len(p.mons) {
		return p, c
	}
	return mkPoly(p.sort, rest), c
}

// note records p >= 0.
func (l lowerBounds) note(p *Term) {
	b, c := splitConst(p)
	c = new(big.Rat).Neg(c)
	if o, ok := l[b]; !ok || o.Cmp(c) < 0 {
		l[b] = c
	}
}

// decide p >= 0 (or p > 0) from the bounds.
func (l lowerBounds) decide(p *Term, strict bool) *Term {
	b, c := splitConst(p)
	if lo, ok := l[b]; ok {
		if k := new(big.Rat).Add(lo, c).Sign(); k > 0 || k == 0 && !strict {
			return True
		}
	}
	if lo, ok := l[Neg(b)]; ok {
		// b <= -lo, so p <= c-lo
		if k := new(big.Rat).Sub(c, lo).Sign(); k < 0 || k == 0 && strict {
			return False
		}
	}
	return nil
}

func (s *subster) do(t *Term) *Term {
	if r, ok := s.m[t]; ok {
		return r
	}
	if len(s.lower) > 0 {
		switch t.op {
		case OGe0:
			if r := s.lower.decide(t.args[0], false); r != nil {
				return r
			}
		case OGt0:
			if r := s.lower.decide(t.args[0], true); r != nil {
				return r
			}
		}
	}
	if t.op == OVar || t.op == OBVar {
		return t
	}
	hit := false
	fv := freeOf(t)
	if len(fv) < len(s.m) {
		for v := range fv {
			if _, ok := s.m[v]; ok {
				hit = true
				break
			}
		}
	} else {
		for v := range s.m {
			if v.op != OVar && v.op != OBVar {
				hit = true
				break
			}
			if fv[v] {
				hit = true
				break
			}
		}
	}
	if !hit {
		for v := range s.m {
			if v.op != OVar && v.op != OBVar {
				hit = true
				break
			}
		}
	}
	if !hit {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r := rebuild(t, s.do)
	s.memo[t] = r
	return r
}

// rebuild reconstructs t with f applied to its children.
func rebuild(t *Term, f func(*Term) *Term) *Term {
	switch t.op {
	case OVar, OBVar, OTrue, OFalse:
		return t
	case ONot:
		return Not(f(t.args[0]))
	case OAnd:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = f(a)
		}
		return And(as...)
	case OOr:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = f(a)
		}
		return Or(as...)
	case OEq0:
		return eqZero(f(t.args[0]))
	case OGe0:
		return ge0(f(t.args[0]))
	case OGt0:
		return gt0(f(t.args[0]))
	case OIff:
		return Iff(f(t.args[0]), f(t.args[1]))
	case OEqA:
		return Eq(f(t.args[0]), f(t.args[1]))
	case OIte:
		c := f(t.args[0])
		if c == True {
			return f(t.args[1])
		}
		if c == False {
			return f(t.args[2])
		}
		return Ite(c, f(t.args[1]), f(t.args[2]))
	case OPoly:
		// polynomial: sum of products of substituted atoms
		acc := make([]Mono, 0, len(t.mons))
		for _, m := range t.mons {
			p := Num(t.sort, m.C)
			for _, a := range m.A {
				p = Mul(p, f(a))
			}
			acc = append(acc, polyOf(p)...)
		}
		return mkPoly(t.sort, acc)
	case OSelect:
		return Select(f(t.args[0]), f(t.args[1]))
	case OStore:
		return Store(f(t.args[0]), f(t.args[1]), f(t.args[2]))
	case OApp:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = f(a)
		}
		return mkApp(t.name, t.sort, as)
	case OLambda, OForall, OExists:
		// open with a unique variable, to keep binders canonical
		u := freshBV(t.args[0].sort)
		body := f(subst1(t.args[1], t.args[0], u))
		if t.op == OLambda {
			return Lambda(u, body)
		}
		return mkQuant(t.op, []*Term{u}, body)
	}
	panic("rebuild")
}

func eqZero(p *Term) *Term {
	if p.op == OIte {
		return Eq(p, Num(p.sort, ratI(0)))
	}
	return eq0(p)
}

// mkApp re-normalises applications after substitution.
func mkApp(name string, s *Sort, as []*Term) *Term {
	switch name {
	case "tval":
		return tval(as[0])
	case "u.isMatrix":
		return App(name, s, as[0])
	case "inv":
		return Inv(as[0])
	case "exp":
		return Exp(as[0])
	case "pow":
		return Pow(as[0], as[1])
	case "to_real":
		return ToReal(as[0])
	case "SUM":
		return Sum(as[0], as[1])
	case "MAXF":
		return MaxF(as[0], as[1])
	case "LAST":
		return Last(as[0], as[1])
	case "div":
		return IDiv(as[0], as[1])
	case "mod":
		return IMod(as[0], as[1])
	case "abs":
		return Abs(as[0])
	case "log":
		return Log(as[0])
	case "sqrt":
		return Sqrt(as[0])
	}
	if strings.HasPrefix(name, "is:") {
		return IsCtor(name[3:], as[0])
	}
	if strings.HasPrefix(name, "arg:") {
		var i int
		rest := name[4:]
		j := strings.IndexByte(rest, ':')
		fmt.Sscanf(rest[:j], "%d", &i)
		return CtorArg(rest[j+1:], i, as[0])
	}
	return mkRaw(OApp, s, name, as...)
}

// ---------- sums ----------

// Sum is sum_{k in [0,n)} f[k]; f an array of reals or integers.
func Sum(f, n *Term) *Term {
	u := freshBV(IntS)
	fu := Select(f, u)
	so := fu.sort
	zero := Num(so, ratI(0))
	if r, ok := n.isNum(); ok && r.Sign() <= 0 {
		return zero
	}
	if r, ok := n.isInt(); ok && r <= 6 {
		acc := zero
		for i := int64(0); i < r; i++ {
			acc = Add(acc, Select(f, Int(i)))
		}
		return acc
	}
	if f.op == OIte {
		return Ite(f.args[0], Sum(f.args[1], n), Sum(f.args[2], n))
	}
	body := underRange(fu, u, n)
	// pull out conditions that do not depend on the index
	if body.op == OIte && !occurs(u, body.args[0]) {
		return Ite(body.args[0], Sum(Lambda(u, body.args[1]), n), Sum(Lambda(u, body.args[2]), n))
	}
	ms := polyOf(body)
	acc := zero
	for _, m := range ms {
		out := Num(so, m.C)
		var in []*Term
		for _, a := range m.A {
			if occurs(u, a) {
				in = append(in, a)
			} else {
				out = Mul(out, a)
			}
		}
		if len(in) == 0 {
			c := Ite(Ge(n, Int(0)), n, Int(0))
			if so == RealS {
				c = ToReal(c)
			}
			acc = Add(acc, Mul(out, c))
			continue
		}
		inner := mkPoly(so, []Mono{{ratI(1), in}})
		acc = Add(acc, Mul(out, mkRaw(OApp, so, "SUM", Lambda(u, inner), n)))
	}
	return acc
}

// Blk is the block that holds position i when blocks of the sizes f follow one
// another: the k with f[0]+...+f[k-1] <= i < f[0]+...+f[k].
func Blk(f, i *Term) *Term {
	if f.op == OLambda {
		if r, ok := f.args[1].isInt(); ok && r == 1 {
			return i
		}
	}
	return mkRaw(OApp, IntS, "BLK", f, i)
}

// underRange simplifies body knowing 0 <= u < n.
func underRange(body, u, n *Term) *Term {
	m := map[*Term]*Term{}
	if c := Ge(u, Int(0)); c.op == OGe0 {
		m[c] = True
	}
	if c := Lt(u, n); c.op == OGe0 {
		m[c] = True
	}
	return Subst(body, m)
}

func SumRange(f func(k *Term) *Term, lo, hi *Term) *Term {
	u := freshBV(IntS)
	return Sum(Lambda(u, f(Add(u, lo))), Sub(hi, lo))
}

// MaxF is max_{k in [0,n)} f[k], for n>=1.
func MaxF(f, n *Term) *Term {
	if r, ok := n.isInt(); ok && r >= 1 && r <= 2 {
		acc := Select(f, Int(0))
		for i := int64(1); i < r; i++ {
			x := Select(f, Int(i))
			acc = Ite(Gt(x, acc), x, acc)
		}
		return acc
	}
	return mkRaw(OApp, RealS, "MAXF", f, n)
}

// Last is the largest j in [0,n) with f[j] = 1, or -1; f an Int->Int array.
func Last(f, n *Term) *Term {
	if r, ok := n.isNum(); ok && r.Sign() <= 0 {
		return Int(-1)
	}
	return mkRaw(OApp, IntS, "LAST", f, n)
}

// ---------- integer division (non-negative numerator, positive denominator) ----------

func IDiv(a, b *Term) *Term {
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok && y > 0 && x >= 0 {
			return Int(x / y)
		}
		if x == 0 {
			return Int(0)
		}
	}
	if y, ok := b.isInt(); ok && y == 1 {
		return a
	}
	t := mkRaw(OApp, IntS, "div", a, b)
	if nn, _ := knownNonneg(a); nn {
		if nb, _ := knownNonneg(b); nb {
			t.nonneg = true
		}
	}
	return t
}

func IMod(a, b *Term) *Term {
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok && y > 0 && x >= 0 {
			return Int(x % y)
		}
		if x == 0 {
			return Int(0)
		}
	}
	if y, ok := b.isInt(); ok && y == 1 {
		return Int(0)
	}
	t := mkRaw(OApp, IntS, "mod", a, b)
	if nn, _ := knownNonneg(a); nn {
		if nb, _ := knownNonneg(b); nb {
			t.nonneg = true
		}
	}
	return t
}

// ---------- printing ----------

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	sub := func(x *Term) string { return x.str(d + 1) }
	join := func(op string) string {
		var p []string
		for _, a := range t.args {
			p = append(p, sub(a))
		}
		return "(" + op + " " + strings.Join(p, " ") + ")"
	}
	switch t.op {
	case OVar, OBVar:
		return t.name
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case ONot:
		return join("not")
	case OAnd:
		return join("and")
	case OOr:
		return join("or")
	case OEq0:
		return sub(t.args[0]) + "=0"
	case OGe0:
		return sub(t.args[0]) + ">=0"
	case OGt0:
		return sub(t.args[0]) + ">0"
	case OIff, OEqA:
		return join("=")
	case OIte:
		return join("ite")
	case OSelect:
		return sub(t.args[0]) + "[" + sub(t.args[1]) + "]"
	case OStore:
		return join("store")
	case OLambda:
		return "(λ" + t.args[0].name + ". " + sub(t.args[1]) + ")"
	case OForall:
		return "(∀" + t.args[0].name + ". " + sub(t.args[1]) + ")"
	case OExists:
		return "(∃" + t.args[0].name + ". " + sub(t.args[1]) + ")"
	case OApp:
		return join(t.name)
	case OPoly:
		if len(t.mons) == 0 {
			return "0"
		}
		var p []string
		for _, m := range t.mons {
			var q []string
			if m.C.Cmp(ratI(1)) != 0 || len(m.A) == 0 {
				q = append(q, m.C.RatString())
			}
			for _, a := range m.A {
				q = append(q, sub(a))
			}
			p = append(p, strings.Join(q, "*"))
		}
		return "(" + strings.Join(p, " + ") + ")"
	}
	return "?"
}

func Log(t *Term) *Term {
	if r, ok := t.isNum(); ok && r.Cmp(ratI(1)) == 0 {
		return RealN(0)
	}
	if t.op == OApp && t.name == "exp" {
		return t.args[0]
	}
	return mkRaw(OApp, RealS, "log", t)
}

func Sqrt(t *Term) *Term {
	if n, ok := t.isInt(); ok && (n == 0 || n == 1) {
		return t
	}
	return mkRaw(OApp, RealS, "sqrt", t)
}
