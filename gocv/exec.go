package main

// Symbolic execution of Go function bodies over the typed AST.  Every path of
// a loop-free piece of code is followed; states are merged at joins.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"
)

type Oblig struct {
	Name  string
	Kind  string // def, ret, new, frame, panic, nopanic, pre, errs, ensures, grad, inv, unsupported
	Facts []*Term
	Goal  *Term
	Pos   string
	// result
	Status  string // proved, failed
	Backend string
	Secs    float64
	Model   map[string]string
	Detail  string
}

type Ret struct {
	st   *State
	vals []Val
}

type Outcome struct {
	normal *State
	rets   []Ret
	brk    map[string][]*State
	cont   map[string][]*State
}

type Exec struct {
	valueObjs               bool // the next matrix is a value object
	prog                    *Program
	specs                   *Specs
	quiet                   int
	seq                     int // fresh symbols, cells, references
	loopKs                  []*Term
	obs                     []*Oblig
	panics                  *Term // allowed panic condition over the pre-state
	fkey                    string
	funcs                   map[string]*FuncVal
	fnames                  map[string]int
	trusted                 map[string]bool // contracts assumed at call sites
	used                    map[string]bool
	assumed                 map[string]bool
	inlined                 map[string]bool
	obSeen                  map[string]int
	loopN                   int
	pos                     token.Pos
	pre                     *State
	depth                   int
	mayPan                  bool // panics clause is "may"
	steps                   int
	top                     *FuncInfo
	hints                   map[string]*Term
	deadline, solveDeadline time.Time
	axioms                  []*Term
	tagKnown                map[*Term]*Term
	guards                  []guardC
	signals                 []signalC
	sigEnv                  *specEnv
	detached, concOn        bool
	noGuard                 int
}

func newExec(p *Program, sp *Specs) *Exec {
	return &Exec{tagKnown: map[*Term]*Term{}, prog: p, specs: sp, funcs: map[string]*FuncVal{}, fnames: map[string]int{}, trusted: map[string]bool{}, used: map[string]bool{}, assumed: map[string]bool{}, inlined: map[string]bool{}, obSeen: map[string]int{}, panics: False, hints: map[string]*Term{}}
}

func (ex *Exec) fresh(prefix string, s *Sort) *Term {
	ex.seq++
	return Var(fmt.Sprintf("%s!%d", prefix, ex.seq), s)
}

// freshK is an unknown value; in a loop it depends on the iteration.
func (ex *Exec) freshK(prefix string, s *Sort) *Term {
	if len(ex.loopKs) == 0 {
		return ex.fresh(prefix, s)
	}
	ex.seq++
	return App(fmt.Sprintf("it.%s!%d", prefix, ex.seq), s, ex.loopKs...)
}

func (ex *Exec) newRef() *Term {
	ex.seq++
	return ctor(fmt.Sprintf("obj%d", ex.seq), ex.loopKs...)
}

// newDenseRef is the reference of a new Dense matrix.
func (ex *Exec) newDenseRef() *Term {
	ex.seq++
	return ctor(fmt.Sprintf("obj%d.D", ex.seq), ex.loopKs...)
}

func isDenseRef(t *Term) bool {
	return isCtor(t) && strings.HasPrefix(t.name, "c!obj") && (strings.HasSuffix(t.name, ".D") || strings.HasSuffix(t.name, ".vD"))
}

func (ex *Exec) newCell() int { ex.seq++; return ex.seq }

func (ex *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// oblige records that goal must follow from the state's facts.
func (ex *Exec) oblige(st *State, kind, name string, goal *Term) {
	if ex.quiet > 0 || st.dead || goal == True {
		if ex.quiet == 0 && !st.dead {
			ex.obSeen["trivial"]++
		}
		return
	}
	key := kind + ":" + name
	ex.obSeen[key]++
	ex.obs = append(ex.obs, &Oblig{Name: fmt.Sprintf("%s:%s:%s#%d", ex.fkey, kind, name, ex.obSeen[key]), Kind: kind, Facts: append([]*Term(nil), st.facts...), Goal: goal, Pos: ex.posStr(ex.pos)})
}

// mayPanic: a panic happens here when bad holds.
func (ex *Exec) mayPanic(st *State, what string, bad *Term) {
	if st.dead || bad == False {
		return
	}
	if inFacts(st, Not(bad)) {
		return
	}
	goal := Or(Not(bad), ex.panics)
	ex.oblige(st, "panic", what, goal)
	if ex.panics == False || ex.quickTrue(st, Not(bad)) {
		// provable from the other facts (or reported as failed)
		st.assume(markHint(Not(bad)))
		return
	}
	st.assume(Not(bad))
}

// hint facts are consequences of others; they are not carried into loop summaries.
var hintFact = map[*Term]bool{}

func markHint(t *Term) *Term {
	if t.op == OAnd {
		for _, a := range t.args {
			hintFact[a] = true
		}
	}
	hintFact[t] = true
	return t
}

func inFacts(st *State, t *Term) bool {
	if t == True {
		return true
	}
	if t.op == OAnd {
		for _, a := range t.args {
			if !inFacts(st, a) {
				return false
			}
		}
		return true
	}
	for _, f := range st.facts {
		if f == t {
			return true
		}
	}
	return false
}

func (ex *Exec) quickTrue(st *State, t *Term) bool {
	if inFacts(st, t) {
		return true
	}
	if t == False {
		return false
	}
	return QuickProve(st.facts, t)
}

// decide: 1 true, 0 false, -1 unknown
func (ex *Exec) decide(st *State, t *Term) int {
	if t == True {
		return 1
	}
	if t == False {
		return 0
	}
	if ex.quickTrue(st, t) {
		return 1
	}
	if ex.quickTrue(st, Not(t)) {
		return 0
	}
	return -1
}

func copyFacts(f []*Term) []*Term { return f[:len(f):len(f)] }

// merge joins two states that branched from a common prefix of facts.
func (ex *Exec) merge(a, b *State) *State {
	m, _ := ex.mergeC(a, b)
	return m
}

func (ex *Exec) mergeC(a, b *State) (*State, *Term) {
	if a == nil || a.dead {
		if b == nil {
			return a, False
		}
		return b, False
	}
	if b == nil || b.dead {
		return a, True
	}
	n := 0
	for n < len(a.facts) && n < len(b.facts) && a.facts[n] == b.facts[n] {
		n++
	}
	ea, eb := a.facts[n:], b.facts[n:]
	var c *Term
	if len(ea) > 0 && len(eb) > 0 && ea[0] == Not(eb[0]) {
		c = ea[0]
	} else if len(ea) > 0 && len(eb) > 0 {
		// split literal somewhere in the extras (conjunctions)
		na := And(eb...)
		for _, f := range ea {
			if Not(f) == na {
				c = f
			}
		}
		if c == nil {
			nb := And(ea...)
			for _, f := range eb {
				if Not(f) == nb {
					c = nb
				}
			}
		}
	}
	if c == nil {
		c = ex.fresh("br", BoolS)
	}
	m := newState()
	if len(a.defers) != len(b.defers) {
		unsup("conditional defer")
	}
	m.defers = a.defers
	m.facts = copyFacts(a.facts[:n])
	for _, f := range ea {
		if f != c {
			m.facts = appendFact(m.facts, Imp(c, f), hintFact[f])
		}
	}
	nc := Not(c)
	for _, f := range eb {
		if f != nc {
			m.facts = appendFact(m.facts, Imp(nc, f), hintFact[f])
		}
	}
	for k, va := range a.cells {
		vb, ok := b.cells[k]
		if !ok {
			m.cells[k] = va
			continue
		}
		m.cells[k] = iteVal(c, va, vb)
	}
	for k, vb := range b.cells {
		if _, ok := a.cells[k]; !ok {
			m.cells[k] = vb
		}
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for k := range keys {
		x, y := a.get(k), b.get(k)
		m.heap[k] = mergeArr(c, x, y)
	}
	return m, c
}

func appendFact(fs []*Term, f *Term, hint bool) []*Term {
	if f == True {
		return fs
	}
	if hint {
		markHint(f)
	}
	for _, g := range fs {
		if g == f {
			return fs
		}
	}
	return append(fs, f)
}

// mergeArr joins two heap maps, sharing a common store base where possible.
func mergeArr(c, x, y *Term) *Term {
	if x == y {
		return x
	}
	// find common base in store chains
	bases := map[*Term]bool{}
	for t := x; ; t = t.args[0] {
		bases[t] = true
		if t.op != OStore {
			break
		}
	}
	t := y
	for !bases[t] && t.op == OStore {
		t = t.args[0]
	}
	if !bases[t] {
		return Ite(c, x, y)
	}
	base := t
	collect := func(z *Term) (idx []*Term) {
		for ; z != base; z = z.args[0] {
			idx = append([]*Term{z.args[1]}, idx...)
		}
		return
	}
	ix, iy := collect(x), collect(y)
	if len(ix)+len(iy) > 24 {
		return Ite(c, x, y)
	}
	res := base
	seen := map[*Term]bool{}
	for _, i := range append(ix, iy...) {
		if seen[i] {
			continue
		}
		seen[i] = true
	}
	// all indices must be pairwise decided for the pointwise merge
	var all []*Term
	for _, i := range append(ix, iy...) {
		dup := false
		for _, j := range all {
			if i == j {
				dup = true
				break
			}
			e := Eq(i, j)
			if e != False {
				return Ite(c, x, y)
			}
		}
		if !dup {
			all = append(all, i)
		}
	}
	for _, i := range all {
		vx, vy := Select(x, i), Select(y, i)
		var v *Term
		if vx.sort.K == 'A' {
			v = mergeArr(c, vx, vy)
		} else {
			v = Ite(c, vx, vy)
		}
		res = Store(res, i, v)
	}
	return res
}

func iteVal(c *Term, a, b Val) Val {
	if len(a.L) != len(b.L) {
		unsup("merging values of types %v and %v", a.T, b.T)
	}
	r := Val{T: a.T, L: make([]*Term, len(a.L))}
	for i := range a.L {
		r.L[i] = Ite(c, a.L[i], b.L[i])
	}
	return r
}

func (ex *Exec) mergeAll(ss []*State) *State {
	var m *State
	for _, s := range ss {
		if s == nil || s.dead {
			continue
		}
		if m == nil {
			m = s
		} else {
			m = ex.merge(m, s)
		}
	}
	return m
}

// ---------- statements ----------

func (ex *Exec) block(fr *Frame, st *State, list []ast.Stmt) *Outcome {
	out := &Outcome{brk: map[string][]*State{}, cont: map[string][]*State{}}
	cur := st
	for _, s := range list {
		if cur == nil || cur.dead {
			break
		}
		o := ex.stmt(fr, cur, s, "")
		out.join(o)
		cur = o.normal
	}
	if cur != nil && cur.dead {
		cur = nil
	}
	out.normal = cur
	return out
}

func (o *Outcome) join(p *Outcome) {
	o.rets = append(o.rets, p.rets...)
	for k, v := range p.brk {
		o.brk[k] = append(o.brk[k], v...)
	}
	for k, v := range p.cont {
		o.cont[k] = append(o.cont[k], v...)
	}
}

func norm(st *State) *Outcome {
	if st != nil && st.dead {
		st = nil
	}
	return &Outcome{normal: st, brk: map[string][]*State{}, cont: map[string][]*State{}}
}

func (ex *Exec) stmt(fr *Frame, st *State, s ast.Stmt, label string) *Outcome {
	ex.steps++
	if ex.steps%16 == 0 && !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
		unsup("time limit for symbolic execution reached")
	}
	if ex.steps > 400000 {
		unsup("execution too long")
	}
	if s != nil {
		ex.pos = s.Pos()
	}
	switch s := s.(type) {
	case nil, *ast.EmptyStmt:
		return norm(st)
	case *ast.BlockStmt:
		return ex.block(fr, st, s.List)
	case *ast.LabeledStmt:
		return ex.stmt(fr, st, s.Stmt, s.Label.Name)
	case *ast.ExprStmt:
		ex.evalMulti(fr, st, s.X)
		return norm(st)
	case *ast.AssignStmt:
		ex.assign(fr, st, s)
		return norm(st)
	case *ast.IncDecStmt:
		lv := ex.lval(fr, st, s.X)
		v := ex.load(st, lv)
		one := Num(v.L[0].sort, ratI(1))
		if s.Tok == token.INC {
			v.L = []*Term{Add(v.L[0], one)}
		} else {
			v.L = []*Term{Sub(v.L[0], one)}
		}
		ex.store(st, lv, v)
		return norm(st)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						if o := fr.info.Defs[n]; o != nil {
							ex.declare(fr, st, o, zeroVal(o.Type()))
						}
					}
				} else if len(vs.Values) == len(vs.Names) {
					var vals []Val
					for i, e := range vs.Values {
						o := fr.info.Defs[vs.Names[i]]
						v := ex.eval(fr, st, e)
						if o != nil {
							v = ex.convertAssign(st, v, o.Type())
						}
						vals = append(vals, v)
					}
					for i, n := range vs.Names {
						if o := fr.info.Defs[n]; o != nil {
							ex.declare(fr, st, o, vals[i])
						}
					}
				} else {
					vals := ex.evalMulti(fr, st, vs.Values[0])
					for i, n := range vs.Names {
						if o := fr.info.Defs[n]; o != nil && n.Name != "_" {
							ex.declare(fr, st, o, ex.convertAssign(st, vals[i], o.Type()))
						}
					}
				}
			}
		}
		return norm(st)
	case *ast.ReturnStmt:
		return ex.doReturn(fr, st, s)
	case *ast.IfStmt:
		if s.Init != nil {
			o := ex.stmt(fr, st, s.Init, "")
			st = o.normal
			if st == nil {
				return norm(nil)
			}
		}
		c := ex.eval(fr, st, s.Cond).L[0]
		if st.dead {
			return norm(nil)
		}
		return ex.branch(st, c, func(t *State) *Outcome { return ex.block(fr, t, s.Body.List) }, func(t *State) *Outcome {
			if s.Else == nil {
				return norm(t)
			}
			return ex.stmt(fr, t, s.Else, "")
		})
	case *ast.SwitchStmt:
		return ex.switchStmt(fr, st, s, label)
	case *ast.TypeSwitchStmt:
		return ex.typeSwitch(fr, st, s, label)
	case *ast.ForStmt:
		return ex.forStmt(fr, st, s, label)
	case *ast.RangeStmt:
		return ex.rangeStmt(fr, st, s, label)
	case *ast.BranchStmt:
		o := norm(nil)
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			o.brk[l] = []*State{st}
		case token.CONTINUE:
			o.cont[l] = []*State{st}
		default:
			unsup("%s statement", s.Tok)
		}
		return o
	case *ast.DeferStmt:
		ex.deferStmt(fr, st, s)
		return norm(st)
	case *ast.GoStmt:
		ex.goStmt(fr, st, s)
		return norm(st)
	case *ast.SendStmt:
		ex.send(fr, st, s)
		return norm(st)
	}
	unsup("statement %T", s)
	return nil
}

func (ex *Exec) branch(st *State, c *Term, th, el func(*State) *Outcome) *Outcome {
	switch ex.decide(st, c) {
	case 1:
		return th(st)
	case 0:
		return el(st)
	}
	a, b := st.clone(), st.clone()
	assumeSplit(a, c)
	assumeSplit(b, Not(c))
	oa, ob := norm(nil), norm(nil)
	if !a.dead {
		oa = th(a)
	}
	if !b.dead {
		ob = el(b)
	}
	out := norm(nil)
	out.join(oa)
	out.join(ob)
	out.normal = ex.merge(oa.normal, ob.normal)
	if out.normal != nil && out.normal.dead {
		out.normal = nil
	}
	return out
}

// assumeSplit keeps the branching condition as one fact so that merges find it.
func assumeSplit(s *State, c *Term) {
	if c == False {
		s.dead = true
		return
	}
	if c == True {
		return
	}
	s.facts = append(copyFacts(s.facts), c)
}

func (ex *Exec) switchStmt(fr *Frame, st *State, s *ast.SwitchStmt, label string) *Outcome {
	if s.Init != nil {
		o := ex.stmt(fr, st, s.Init, "")
		st = o.normal
	}
	var tag *Val
	if s.Tag != nil {
		v := ex.eval(fr, st, s.Tag)
		tag = &v
	}
	var clauses []*ast.CaseClause
	var def *ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
		} else {
			clauses = append(clauses, cc)
		}
	}
	var run func(st *State, i int) *Outcome
	run = func(st *State, i int) *Outcome {
		if i == len(clauses) {
			if def != nil {
				return ex.block(fr, st, def.Body)
			}
			return norm(st)
		}
		c := False
		for _, e := range clauses[i].List {
			v := ex.eval(fr, st, e)
			if tag != nil {
				c = Or(c, ex.equal(st, *tag, v))
			} else {
				c = Or(c, v.L[0])
			}
		}
		return ex.branch(st, c, func(t *State) *Outcome { return ex.block(fr, t, clauses[i].Body) }, func(t *State) *Outcome { return run(t, i+1) })
	}
	o := run(st, 0)
	return ex.absorbBreak(o, label)
}

func (ex *Exec) absorbBreak(o *Outcome, label string) *Outcome {
	bs := append([]*State{o.normal}, o.brk[""]...)
	if label != "" {
		bs = append(bs, o.brk[label]...)
		delete(o.brk, label)
	}
	delete(o.brk, "")
	o.normal = ex.mergeAll(bs)
	return o
}

func (ex *Exec) typeSwitch(fr *Frame, st *State, s *ast.TypeSwitchStmt, label string) *Outcome {
	if s.Init != nil {
		o := ex.stmt(fr, st, s.Init, "")
		st = o.normal
	}
	var xe ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		xe = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		xe = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	x := ex.evalIface(fr, st, xe)
	var clauses []*ast.CaseClause
	var def *ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
		} else {
			clauses = append(clauses, cc)
		}
	}
	bind := func(t *State, cc *ast.CaseClause, v Val) {
		if o := fr.info.Implicits[cc]; o != nil {
			ex.declare(fr, t, o, v)
		}
	}
	var run func(st *State, i int) *Outcome
	run = func(st *State, i int) *Outcome {
		if i == len(clauses) {
			if def != nil {
				bind(st, def, x)
				return ex.block(fr, st, def.Body)
			}
			return norm(st)
		}
		c := False
		var one types.Type
		for _, e := range clauses[i].List {
			tv := fr.info.Types[e]
			if tv.IsNil() {
				c = Or(c, Eq(x.L[0], nilRef))
				continue
			}
			one = tv.Type
			c = Or(c, ex.hasType(fr, st, x, tv.Type))
		}
		return ex.branch(st, c, func(t *State) *Outcome {
			v := x
			if len(clauses[i].List) == 1 && one != nil {
				v = ex.unbox(t, x, one)
			}
			bind(t, clauses[i], v)
			return ex.block(fr, t, clauses[i].Body)
		}, func(t *State) *Outcome { return run(t, i+1) })
	}
	return ex.absorbBreak(run(st, 0), label)
}

// evalIface evaluates the operand of a type switch or assertion, looking
// through conversions to interface types so that its static type is kept.
func (ex *Exec) evalIface(fr *Frame, st *State, e ast.Expr) Val {
	e = ast.Unparen(e)
	if c, ok := e.(*ast.CallExpr); ok && len(c.Args) == 1 {
		if tv, ok := fr.info.Types[c.Fun]; ok && tv.IsType() {
			if _, ok := tv.Type.Underlying().(*types.Interface); ok && !isFloatIface(tv.Type) && !isFloatSliceIface(tv.Type) {
				return ex.eval(fr, st, c.Args[0])
			}
		}
	}
	return ex.eval(fr, st, e)
}

func (ex *Exec) dtypeOf(fr *Frame, t types.Type) *Term {
	switch u := types.Unalias(t).(type) {
	case *types.TypeParam:
		if a, ok := fr.targs[u]; ok && a.Dtype != nil {
			return a.Dtype
		} else if ok && a.T != nil && a.T != t {
			return ex.dtypeOf(fr, a.T)
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Float32:
			return Int(0)
		case types.Float64, types.UntypedFloat, types.UntypedInt, types.Int:
			return Int(1)
		}
	}
	return nil
}

func typeID(t types.Type) *Term { return ctor("type." + typeName(t)) }

var matrixIfaces = map[string]bool{"mat.Matrix": true}

// hasType: the dynamic type of x is (or implements) t.
func (ex *Exec) hasType(fr *Frame, st *State, x Val, t types.Type) *Term {
	if d := ex.dtypeOf(fr, x.T); d != nil && x.L[0].sort == RealS {
		if e := ex.dtypeOf(fr, t); e != nil {
			return Eq(d, e)
		}
		return False
	}
	if isFloatSliceIface(x.T) || isFloatIface(x.T) {
		if st2, ok := t.Underlying().(*types.Slice); ok || isFloatIface(x.T) {
			// stored element type of a float.Slice is not modelled: both possible
			_ = st2
			return ex.fresh("dt", BoolS)
		}
		if namedName(t) != "" {
			return ex.fresh("dt", BoolS)
		}
	}
	if len(x.L) != 1 || x.L[0].sort != IntS {
		if _, ok := types.Unalias(x.T).Underlying().(*types.Interface); !ok {
			return ex.sameType(fr, x.T, t)
		}
		unsup("type test on %v", x.T)
	}
	ref := x.L[0]
	if _, isI := types.Unalias(x.T).Underlying().(*types.Interface); !isI {
		if _, tp := types.Unalias(x.T).(*types.TypeParam); !tp {
			if it, ok := t.Underlying().(*types.Interface); ok {
				return Bool(types.Implements(x.T, it) || it.NumMethods() == 0)
			}
			return Bool(typeName(x.T) == typeName(t))
		}
	}
	nn := Not(Eq(ref, nilRef))
	if it, ok := t.Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 || types.Implements(x.T, it) {
			return nn
		}
		if namedName(t) == "mat.Matrix" {
			// *Dense is the only implementation of Matrix in the module
			tg := ex.tag(st, ref)
			if isCtor(tg) {
				return And(nn, Eq(tg, ctor("type.*mat.Dense")))
			}
			return And(nn, Eq(App("u.isMatrix", IntS, ref), Int(1)))
		}
		tg := ex.tag(st, ref)
		if isCtor(tg) {
			n := strings.TrimPrefix(tg.name, "c!type.*")
			if nt := ex.prog.Named[n]; nt != nil {
				return Bool(types.Implements(types.NewPointer(nt), it))
			}
		}
		return And(nn, Eq(App("u.impl."+typeName(t), IntS, tg), Int(1)))
	}
	if namedName(x.T) == "mat.Matrix" && typeName(t) == "*mat.Dense" {
		// type arguments: compare element types
		if d := ex.denseTArg(fr, t); d != nil {
			return And(nn, Eq(d, ex.dtypeRef(st, ref)))
		}
		return nn
	}
	c := Eq(ex.tag(st, ref), typeID(t))
	if typeName(t) == "*mat.Dense" {
		if d := ex.denseTArg(fr, t); d != nil {
			c = And(c, Eq(d, ex.dtypeRef(st, ref)))
		}
	}
	return And(nn, c)
}

// sameType: type identity, with floating type parameters resolved symbolically.
func (ex *Exec) sameType(fr *Frame, a, b types.Type) *Term {
	if types.Identical(a, b) {
		return True
	}
	if d, e := ex.dtypeOf(fr, a), ex.dtypeOf(fr, b); d != nil && e != nil && (isFloatish(a) && isFloatish(b)) {
		return Eq(d, e)
	}
	x, ok1 := types.Unalias(a).(*types.Slice)
	y, ok2 := types.Unalias(b).(*types.Slice)
	if ok1 && ok2 {
		return ex.sameType(fr, x.Elem(), y.Elem())
	}
	return Bool(typeName(a) == typeName(b))
}

func isFloatish(t types.Type) bool {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		return isFloatTP(tp)
	}
	b, ok := types.Unalias(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (ex *Exec) denseTArg(fr *Frame, t types.Type) *Term {
	p, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || n.TypeArgs().Len() == 0 {
		return nil
	}
	return ex.dtypeOf(fr, n.TypeArgs().At(0))
}

var tagLeaf = Leaf{"", IntS, 'O'}
var dtLeaf = Leaf{"", IntS, 'N'}

func (ex *Exec) tag(st *State, ref *Term) *Term {
	regHeap("tag", tagLeaf, false)
	if ref.op == OIte {
		return Ite(ref.args[0], ex.tag(st, ref.args[1]), ex.tag(st, ref.args[2]))
	}
	if isCtor(ref) && strings.HasPrefix(ref.name, "c!tnil.") {
		return ctor("type." + strings.TrimPrefix(ref.name, "c!tnil."))
	}
	if isDenseRef(ref) {
		return ctor("type.*mat.Dense")
	}
	if t := ex.tagKnown[ref]; t != nil {
		return t
	}
	return Select(st.get("tag"), ref)
}

func (ex *Exec) dtypeRef(st *State, ref *Term) *Term {
	regHeap("dtype", dtLeaf, false)
	return Select(st.get("dtype"), ref)
}

func (ex *Exec) unbox(st *State, x Val, t types.Type) Val {
	if len(x.L) == 1 && x.L[0].sort == RealS {
		return Val{T: t, L: x.L}
	}
	if isFloatSliceIface(x.T) {
		return Val{T: t, L: x.L}
	}
	switch t.Underlying().(type) {
	case *types.Pointer:
		return Val{T: t, L: []*Term{ptrOfIface(x.L[0])}}
	case *types.Interface, *types.Signature, *types.Map:
		return Val{T: t, L: x.L}
	}
	if _, ok := x.T.Underlying().(*types.Interface); !ok {
		return Val{T: t, L: x.L}
	}
	// boxed value
	return st.loadField("box."+typeName(t), "", t, x.L[0])
}

// knowTag records the dynamic type of a reference whose static type fixes it.
func (ex *Exec) knowTag(ref *Term, t types.Type) {
	if ref.op == OIte {
		ex.knowTag(ref.args[1], t)
		ex.knowTag(ref.args[2], t)
		return
	}
	if _, ok := ref.isNum(); ok || isCtor(ref) {
		return
	}
	ex.tagKnown[ref] = typeID(t)
}

// ifaceOfPtr: the interface value holding pointer p (a nil pointer gives a
// non-nil interface).
func (ex *Exec) ifaceOfPtr(st *State, p *Term, t types.Type) *Term {
	ex.knowTag(p, t)
	if p == nilRef {
		return ctor("tnil." + strings.TrimPrefix(typeID(t).name, "c!type."))
	}
	isNil := Eq(p, nilRef)
	switch ex.decide(st, isNil) {
	case 0:
		return p
	case 1:
		return ctor("tnil." + strings.TrimPrefix(typeID(t).name, "c!type."))
	}
	return Ite(isNil, ctor("tnil."+strings.TrimPrefix(typeID(t).name, "c!type.")), p)
}

// ptrOfIface: the pointer held by an interface value.
func ptrOfIface(x *Term) *Term {
	if x.op == OIte {
		return Ite(x.args[0], ptrOfIface(x.args[1]), ptrOfIface(x.args[2]))
	}
	if isCtor(x) && strings.HasPrefix(x.name, "c!tnil.") {
		return nilRef
	}
	return x
}

// convertAssign adapts a value to the static type it is assigned to.
func (ex *Exec) convertAssign(st *State, v Val, t types.Type) Val {
	if t == nil || v.T == nil || st.dead {
		return v
	}
	if b, ok := v.T.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zeroVal(t)
	}
	lf := flatten(t)
	if _, ok := t.Underlying().(*types.Interface); ok && !isTP(t) {
		if isFloatIface(t) || isFloatSliceIface(t) {
			if len(v.L) == len(lf) {
				if lf[0].S == RealS {
					return Val{T: t, L: []*Term{toReal(v.L[0])}}
				}
				return Val{T: t, L: v.L}
			}
		}
		switch v.T.Underlying().(type) {
		case *types.Interface:
			if namedName(v.T) == "mat.Matrix" && namedName(t) != "mat.Matrix" {
				ex.knowTag(v.L[0], types.NewPointer(ex.prog.Named["mat.Dense"]))
			}
			return Val{T: t, L: v.L}
		case *types.Pointer:
			return Val{T: t, L: []*Term{ex.ifaceOfPtr(st, v.L[0], v.T)}}
		case *types.Signature, *types.Map, *types.Chan:
			return Val{T: t, L: v.L}
		}
		if isTP(v.T) && len(v.L) == 1 && v.L[0].sort == IntS {
			return Val{T: t, L: v.L}
		}
		// box
		ref := ex.newRef()
		dt := v.T
		if b, ok := dt.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			dt = types.Default(dt)
		}
		st.storeField("box."+typeName(dt), "", ref, Val{T: dt, L: v.L})
		ex.setTag(st, ref, dt)
		return Val{T: t, L: []*Term{ref}}
	}
	if len(lf) == 1 && len(v.L) == 1 && lf[0].S == RealS && v.L[0].sort == IntS {
		return Val{T: t, L: []*Term{ToReal(v.L[0])}}
	}
	if len(lf) != len(v.L) {
		unsup("cannot convert %v to %v", v.T, t)
	}
	return Val{T: t, L: v.L}
}

func isTP(t types.Type) bool { _, ok := types.Unalias(t).(*types.TypeParam); return ok }

func (ex *Exec) setTag(st *State, ref *Term, t types.Type) {
	regHeap("tag", tagLeaf, false)
	st.heap["tag"] = Store(st.get("tag"), ref, typeID(t))
	if isCtor(ref) && len(ref.args) == 0 {
		ex.tagKnown[ref] = typeID(t) // an object keeps its type
	}
}

func toReal(t *Term) *Term {
	if t.sort == RealS {
		return t
	}
	return ToReal(t)
}

func (ex *Exec) isBoxed(fr *Frame, o types.Object) bool { return fr.boxed[o] }

func (ex *Exec) declare(fr *Frame, st *State, o types.Object, v Val) {
	c := ex.newCell()
	fr.env[o] = c
	if ex.isBoxed(fr, o) {
		ref := ex.newRef()
		name := structNameOf(o.Type())
		st.storeField(name, "", ref, Val{T: o.Type(), L: v.L})
		ex.setTag(st, ref, types.NewPointer(o.Type()))
		st.cells[c] = Val{T: types.NewPointer(o.Type()), L: []*Term{ref}}
		return
	}
	st.cells[c] = Val{T: o.Type(), L: v.L}
}

// structNameOf names the field maps used for a pointee of type t.
func structNameOf(t types.Type) string {
	if n := namedName(t); n != "" {
		return n
	}
	return "box." + typeName(t)
}

func (ex *Exec) doReturn(fr *Frame, st *State, s *ast.ReturnStmt) *Outcome {
	o := norm(nil)
	var vals []Val
	sig := fr.res
	switch {
	case len(s.Results) == 0:
		for _, c := range fr.resC {
			vals = append(vals, st.cells[c])
		}
	case len(s.Results) == 1 && len(sig) > 1:
		vs := ex.evalMulti(fr, st, s.Results[0])
		for i, v := range vs {
			vals = append(vals, ex.convertAssign(st, v, sig[i].Type()))
		}
	default:
		for i, e := range s.Results {
			v := ex.eval(fr, st, e)
			if st.dead {
				return o
			}
			vals = append(vals, ex.convertAssign(st, v, sig[i].Type()))
		}
	}
	if st.dead {
		return o
	}
	for i, c := range fr.resC {
		if c != 0 {
			st.cells[c] = vals[i]
		}
	}
	o.rets = []Ret{{st, vals}}
	return o
}

func (ex *Exec) assign(fr *Frame, st *State, s *ast.AssignStmt) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := assignOps[s.Tok]
		lv := ex.lval(fr, st, s.Lhs[0])
		cur := ex.load(st, lv)
		r := ex.eval(fr, st, s.Rhs[0])
		if st.dead {
			return
		}
		v := ex.binop(st, op, cur, r, cur.T)
		ex.store(st, lv, Val{T: cur.T, L: v.L})
		return
	}
	var vals []Val
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		vals = ex.evalMulti(fr, st, s.Rhs[0])
	}
	// evaluate operands of index expressions on the left first
	lvs := make([]*LV, len(s.Lhs))
	if s.Tok == token.ASSIGN {
		for i, l := range s.Lhs {
			if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
				continue
			}
			lv := ex.lval(fr, st, l)
			lvs[i] = lv
		}
	}
	if vals == nil {
		for _, e := range s.Rhs {
			vals = append(vals, ex.eval(fr, st, e))
		}
	}
	if st.dead {
		return
	}
	for i, l := range s.Lhs {
		id, isID := l.(*ast.Ident)
		if isID && id.Name == "_" {
			continue
		}
		if s.Tok == token.DEFINE {
			if o := fr.info.Defs[id]; o != nil {
				ex.declare(fr, st, o, ex.convertAssign(st, vals[i], o.Type()))
				continue
			}
			lvs[i] = ex.lval(fr, st, l)
		}
		ex.store(st, lvs[i], ex.convertAssign(st, vals[i], lvs[i].T))
	}
}

var assignOps = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR,
}

// ---------- lvalues ----------

type LV struct {
	kind byte // 'c' cell, 'f' field of object, 'e' element, 'm' map entry, 'g' global
	T    types.Type
	cell int
	off  int
	ref  *Term
	name string // struct name
	path string
	elem types.Type
	arr  *Term
	idx  *Term
	key  Val
}

func (ex *Exec) load(st *State, lv *LV) Val {
	if st.dead {
		return zeroVal(lv.T)
	}
	switch lv.kind {
	case 'c':
		v, ok := st.cells[lv.cell]
		if !ok {
			unsup("variable not in scope")
		}
		n := len(flatten(lv.T))
		return Val{T: lv.T, L: v.L[lv.off : lv.off+n]}
	case 'f':
		if strings.HasPrefix(lv.name, "global.") && lv.path == "" && ex.prog.constErr(lv.name) {
			return Val{T: lv.T, L: []*Term{ctor("err." + lv.name)}}
		}
		ex.access(st, lv, false)
		return st.loadField(lv.name, lv.path, lv.T, lv.ref)
	case 'e':
		ks, ls := memKeysPath(lv.elem, lv.path, lv.T)
		v := Val{T: lv.T}
		for i, k := range ks {
			regHeap(k, ls[i], true)
			v.L = append(v.L, Select(Select(st.get(k), lv.arr), lv.idx))
		}
		return v
	case 'm':
		v, _ := ex.mapGet(st, lv)
		return v
	}
	panic("load")
}

func memKeysPath(elem types.Type, path string, t types.Type) ([]string, []Leaf) {
	if path == "" {
		return memKeys(elem)
	}
	ks, ls := memKeys(elem)
	var rk []string
	var rl []Leaf
	for i, l := range ls {
		if l.Path == path || strings.HasPrefix(l.Path, path+".") {
			rk = append(rk, ks[i])
			rl = append(rl, l)
		}
	}
	return rk, rl
}

func (ex *Exec) store(st *State, lv *LV, v Val) {
	if st.dead {
		return
	}
	switch lv.kind {
	case 'c':
		old := st.cells[lv.cell]
		n := len(flatten(lv.T))
		if n != len(v.L) {
			unsup("store of %v into %v", v.T, lv.T)
		}
		nl := append([]*Term(nil), old.L...)
		copy(nl[lv.off:], v.L)
		st.cells[lv.cell] = Val{T: old.T, L: nl}
	case 'f':
		ex.access(st, lv, true)
		st.storeField(lv.name, lv.path, lv.ref, Val{T: lv.T, L: v.L})
	case 'e':
		ex.noLateWrite(st, lv.arr)
		ks, ls := memKeysPath(lv.elem, lv.path, lv.T)
		for i, k := range ks {
			regHeap(k, ls[i], true)
			m := st.get(k)
			st.heap[k] = Store(m, lv.arr, Store(Select(m, lv.arr), lv.idx, v.L[i]))
		}
	case 'm':
		ex.mapSet(st, lv, v)
	default:
		panic("store")
	}
}

func (ex *Exec) fieldLV(base *LV, f *types.Var, sub types.Type) *LV {
	n := *base
	n.T = f.Type()
	switch base.kind {
	case 'c':
		su, ok := base.T.Underlying().(*types.Struct)
		if !ok {
			unsup("field of %v", base.T)
		}
		for i := 0; i < su.NumFields(); i++ {
			if su.Field(i).Name() == f.Name() {
				break
			}
			n.off += len(flatten(su.Field(i).Type()))
		}
	case 'f', 'e':
		n.path = base.path + "." + f.Name()
	case 'm':
		unsup("field of map entry")
	}
	return &n
}

// ptrLV is the location a pointer value refers to.
func (ex *Exec) ptrLV(st *State, p Val) *LV {
	var el types.Type
	if pt, ok := p.T.Underlying().(*types.Pointer); ok {
		el = pt.Elem()
	} else {
		unsup("dereference of %v", p.T)
	}
	ex.mayPanic(st, "nil dereference", Eq(p.L[0], nilRef))
	return &LV{kind: 'f', T: el, ref: p.L[0], name: structNameOf(el)}
}

func (ex *Exec) lval(fr *Frame, st *State, e ast.Expr) *LV {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return ex.lval(fr, st, e.X)
	case *ast.Ident:
		o := fr.info.Uses[e]
		if o == nil {
			o = fr.info.Defs[e]
		}
		return ex.varLV(fr, st, o)
	case *ast.SelectorExpr:
		if sel, ok := fr.info.Selections[e]; ok && sel.Kind() == types.FieldVal {
			base := ex.lvalOrTemp(fr, st, e.X)
			return ex.selectPath(st, base, sel)
		}
		if o, ok := fr.info.Uses[e.Sel].(*types.Var); ok {
			return ex.varLV(fr, st, o)
		}
	case *ast.StarExpr:
		p := ex.eval(fr, st, e.X)
		return ex.ptrLV(st, p)
	case *ast.IndexExpr:
		bt := fr.info.TypeOf(e.X)
		if _, ok := bt.Underlying().(*types.Map); ok {
			m := ex.eval(fr, st, e.X)
			k := ex.eval(fr, st, e.Index)
			mt := bt.Underlying().(*types.Map)
			k = ex.convertAssign(st, k, mt.Key())
			return &LV{kind: 'm', T: mt.Elem(), ref: m.L[0], name: typeName(bt), key: k}
		}
		if at, ok := bt.Underlying().(*types.Array); ok {
			base := ex.lval(fr, st, e.X)
			i := ex.eval(fr, st, e.Index)
			n, ok := i.L[0].isInt()
			if !ok {
				unsup("array indexed by a variable")
			}
			nb := *base
			nb.T = at.Elem()
			if base.kind == 'c' {
				nb.off += int(n) * len(flatten(at.Elem()))
			} else {
				nb.path = base.path + fmt.Sprintf(".%d", n)
			}
			return &nb
		}
		x := ex.eval(fr, st, e.X)
		i := ex.eval(fr, st, e.Index)
		if st.dead {
			return &LV{kind: 'e', T: elemType(bt), elem: elemType(bt), arr: Int(0), idx: Int(0)}
		}
		ex.mayPanic(st, "index out of range", Not(And(Ge(i.L[0], Int(0)), Lt(i.L[0], x.L[2]))))
		et := elemType(bt)
		return &LV{kind: 'e', T: et, elem: et, arr: x.L[0], idx: Add(x.L[1], i.L[0])}
	}
	unsup("lvalue %T", e)
	return nil
}

func (ex *Exec) varLV(fr *Frame, st *State, o types.Object) *LV {
	v, ok := o.(*types.Var)
	if !ok {
		unsup("lvalue object %v", o)
	}
	if c, ok := fr.env[o]; ok {
		if ex.isBoxed(fr, o) {
			p := st.cells[c]
			return &LV{kind: 'f', T: v.Type(), ref: p.L[0], name: structNameOf(v.Type())}
		}
		return &LV{kind: 'c', T: v.Type(), cell: c}
	}
	// package-level variable
	if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return &LV{kind: 'f', T: v.Type(), ref: Int(1), name: "global." + shortPkg(v.Pkg().Path()) + "." + v.Name()}
	}
	unsup("unknown variable %s", o.Name())
	return nil
}

// lvalOrTemp gives a location for e, copying non-addressable values to a cell.
func (ex *Exec) lvalOrTemp(fr *Frame, st *State, e ast.Expr) *LV {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		if _, ok := fr.info.Uses[x].(*types.Var); ok {
			return ex.lval(fr, st, x)
		}
	case *ast.SelectorExpr:
		if sel, ok := fr.info.Selections[x]; ok && sel.Kind() == types.FieldVal {
			return ex.lval(fr, st, x)
		}
	case *ast.StarExpr, *ast.IndexExpr:
		if ix, ok := x.(*ast.IndexExpr); ok {
			if _, isFn := fr.info.TypeOf(ix.X).Underlying().(*types.Signature); isFn {
				break
			}
		}
		return ex.lval(fr, st, x)
	}
	v := ex.eval(fr, st, e)
	c := ex.newCell()
	st.cells[c] = v
	return &LV{kind: 'c', T: v.T, cell: c}
}

// selectPath follows a (possibly promoted) field selection.
func (ex *Exec) selectPath(st *State, base *LV, sel *types.Selection) *LV {
	cur := base
	for _, idx := range sel.Index() {
		t := cur.T
		if _, ok := t.Underlying().(*types.Pointer); ok {
			cur = ex.ptrLV(st, ex.load(st, cur))
			t = cur.T
		}
		su, ok := t.Underlying().(*types.Struct)
		if !ok {
			unsup("selection through %v", t)
		}
		cur = ex.fieldLV(cur, su.Field(idx), nil)
	}
	return cur
}

// ---------- maps ----------

// constMapGet looks a key up in a package-level map that is never written.
func (ex *Exec) constMapGet(fr *Frame, st *State, x *ast.IndexExpr) (Val, *Term, bool) {
	id, ok := x.X.(*ast.Ident)
	if !ok {
		return Val{}, nil, false
	}
	v, ok := fr.info.Uses[id].(*types.Var)
	if !ok || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
		return Val{}, nil, false
	}
	mt, ok := v.Type().Underlying().(*types.Map)
	if !ok {
		return Val{}, nil, false
	}
	pkg, lit := ex.prog.constMap(v)
	if lit == nil {
		return Val{}, nil, false
	}
	key := ex.eval(fr, st, x.Index)
	nf := &Frame{fi: fr.fi, info: pkg.Info, env: map[types.Object]int{}, depth: fr.depth}
	r, has := zeroVal(mt.Elem()), False
	for i := len(lit.Elts) - 1; i >= 0; i-- {
		kv, ok := lit.Elts[i].(*ast.KeyValueExpr)
		if !ok {
			return Val{}, nil, false
		}
		c := ex.equal(st, key, ex.convertAssign(st, ex.eval(nf, st, kv.Key), mt.Key()))
		e := ex.convertAssign(st, ex.evalElt(nf, st, kv.Value, mt.Elem()), mt.Elem())
		r, has = iteVal(c, e, r), Or(c, has)
	}
	return r, has, true
}

func (ex *Exec) mapGet(st *State, lv *LV) (Val, *Term) {
	if len(lv.key.L) != 1 || lv.key.L[0].sort != IntS {
		unsup("map key type")
	}
	v := Val{T: lv.T}
	hk := "map." + lv.name + ".has"
	regHeap(hk, Leaf{"", BoolS, 'B'}, true)
	has := Select(Select(st.get(hk), lv.ref), lv.key.L[0])
	z := zeroVal(lv.T)
	for i, l := range flatten(lv.T) {
		k := "map." + lv.name + ".val" + l.Path
		regHeap(k, l, true)
		v.L = append(v.L, Ite(has, Select(Select(st.get(k), lv.ref), lv.key.L[0]), z.L[i]))
	}
	return v, has
}

func (ex *Exec) mapSet(st *State, lv *LV, v Val) {
	if len(lv.key.L) != 1 || lv.key.L[0].sort != IntS {
		unsup("map key type")
	}
	ex.mayPanic(st, "nil map", Eq(lv.ref, nilRef))
	hk := "map." + lv.name + ".has"
	regHeap(hk, Leaf{"", BoolS, 'B'}, true)
	m := st.get(hk)
	st.heap[hk] = Store(m, lv.ref, Store(Select(m, lv.ref), lv.key.L[0], True))
	for i, l := range flatten(lv.T) {
		k := "map." + lv.name + ".val" + l.Path
		regHeap(k, l, true)
		m := st.get(k)
		st.heap[k] = Store(m, lv.ref, Store(Select(m, lv.ref), lv.key.L[0], v.L[i]))
	}
}

// ---------- expressions ----------

func (ex *Exec) evalMulti(fr *Frame, st *State, e ast.Expr) []Val {
	switch x := ast.Unparen(e).(type) {
	case *ast.CallExpr:
		return ex.callExpr(fr, st, x)
	case *ast.TypeAssertExpr:
		if tt, ok := fr.info.Types[e].Type.(*types.Tuple); ok && tt.Len() == 2 {
			v := ex.evalIface(fr, st, x.X)
			t := fr.info.TypeOf(x.Type)
			ok := ex.hasType(fr, st, v, t)
			u := ex.unbox(st, v, t)
			z := zeroVal(t)
			return []Val{iteVal(ok, u, z), {T: types.Typ[types.Bool], L: []*Term{ok}}}
		}
	case *ast.IndexExpr:
		if tt, ok := fr.info.Types[e].Type.(*types.Tuple); ok && tt.Len() == 2 {
			if v, has, ok := ex.constMapGet(fr, st, x); ok {
				return []Val{v, {T: types.Typ[types.Bool], L: []*Term{has}}}
			}
			lv := ex.lval(fr, st, x)
			v, has := ex.mapGet(st, lv)
			return []Val{v, {T: types.Typ[types.Bool], L: []*Term{has}}}
		}
	}
	return []Val{ex.eval(fr, st, e)}
}

func constVal(t types.Type, c constant.Value) Val {
	lf := flatten(t)
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Val{T: t, L: []*Term{Bool(constant.BoolVal(c))}}
		case b.Info()&types.IsString != 0:
			return Val{T: t, L: []*Term{strTerm(constant.StringVal(c))}}
		}
	}
	if c.Kind() == constant.String {
		return Val{T: t, L: []*Term{strTerm(constant.StringVal(c))}}
	}
	r := constRat(c)
	s := IntS
	if len(lf) == 1 && lf[0].S == RealS {
		s = RealS
	}
	return Val{T: t, L: []*Term{Num(s, r)}}
}

func constRat(c constant.Value) *big.Rat {
	c = constant.ToFloat(c)
	r := new(big.Rat)
	switch v := constant.Val(c).(type) {
	case int64:
		r.SetInt64(v)
	case *big.Int:
		r.SetInt(v)
	case *big.Rat:
		r.Set(v)
	case *big.Float:
		v.Rat(r)
	default:
		unsup("constant %v", c)
	}
	return shortRat(r)
}

// shortRat: a fractional constant stands for the shortest decimal that reads
// as the same float64 (so 0.2 in code, which the type checker may already have
// rounded, and 0.2 in a contract are one real number).
func shortRat(r *big.Rat) *big.Rat {
	if r.IsInt() {
		return r
	}
	f, _ := r.Float64()
	if math.IsInf(f, 0) || f == 0 {
		return r
	}
	q, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, 64))
	if !ok {
		return r
	}
	return q
}

func (ex *Exec) eval(fr *Frame, st *State, e ast.Expr) Val {
	tv := fr.info.Types[e]
	if st.dead {
		if tv.Type == nil {
			return Val{}
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			return Val{}
		}
		return zeroVal(tv.Type)
	}
	if tv.Value != nil {
		t := tv.Type
		if tp, ok := t.(*types.TypeParam); ok {
			_ = tp
		}
		return constVal(t, tv.Value)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return ex.eval(fr, st, x.X)
	case *ast.Ident:
		if x.Name == "nil" && tv.IsNil() {
			return Val{T: types.Typ[types.UntypedNil], L: []*Term{Int(0)}}
		}
		o := fr.info.Uses[x]
		if o == nil {
			o = fr.info.Defs[x]
		}
		switch o := o.(type) {
		case *types.Var:
			return ex.load(st, ex.varLV(fr, st, o))
		case *types.Func:
			return ex.funcVal(fr, o, x, nil)
		}
		unsup("identifier %s", x.Name)
	case *ast.SelectorExpr:
		if sel, ok := fr.info.Selections[x]; ok {
			switch sel.Kind() {
			case types.FieldVal:
				base := ex.lvalOrTemp(fr, st, x.X)
				return ex.load(st, ex.selectPath(st, base, sel))
			case types.MethodVal:
				r := ex.eval(fr, st, x.X)
				return ex.funcVal(fr, sel.Obj().(*types.Func), x.Sel, &r)
			}
			unsup("method expression")
		}
		switch o := fr.info.Uses[x.Sel].(type) {
		case *types.Var:
			return ex.load(st, ex.varLV(fr, st, o))
		case *types.Func:
			return ex.funcVal(fr, o, x.Sel, nil)
		}
		unsup("selector %s", x.Sel.Name)
	case *ast.StarExpr:
		return ex.load(st, ex.lval(fr, st, x))
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			return ex.addrOf(fr, st, x.X, tv.Type)
		case token.NOT:
			v := ex.eval(fr, st, x.X)
			return Val{T: tv.Type, L: []*Term{Not(v.L[0])}}
		case token.SUB:
			v := ex.eval(fr, st, x.X)
			return Val{T: tv.Type, L: []*Term{Neg(v.L[0])}}
		case token.ADD:
			return ex.eval(fr, st, x.X)
		case token.ARROW:
			ex.receive(fr, st, x.X)
			return zeroVal(tv.Type)
		}
		unsup("unary %s", x.Op)
	case *ast.BinaryExpr:
		if x.Op == token.LAND || x.Op == token.LOR {
			return ex.shortCircuit(fr, st, x, tv.Type)
		}
		a := ex.eval(fr, st, x.X)
		b := ex.eval(fr, st, x.Y)
		if st.dead {
			return zeroVal(tv.Type)
		}
		return ex.binop(st, x.Op, a, b, tv.Type)
	case *ast.CallExpr:
		vs := ex.callExpr(fr, st, x)
		if len(vs) == 1 {
			return vs[0]
		}
		if len(vs) == 0 {
			return Val{}
		}
		unsup("multi-value in single context")
	case *ast.CompositeLit:
		return ex.composite(fr, st, x, tv.Type)
	case *ast.FuncLit:
		return ex.closure(fr, x, tv.Type)
	case *ast.IndexExpr:
		if _, ok := fr.info.Types[x.X]; ok {
			if _, isFn := fr.info.TypeOf(x.X).Underlying().(*types.Signature); isFn {
				return ex.eval(fr, st, x.X)
			}
		}
		if b, ok := fr.info.TypeOf(x.X).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			unsup("string indexing")
		}
		if v, _, ok := ex.constMapGet(fr, st, x); ok {
			return v
		}
		return ex.load(st, ex.lval(fr, st, x))
	case *ast.IndexListExpr:
		return ex.eval(fr, st, x.X)
	case *ast.SliceExpr:
		return ex.sliceExpr(fr, st, x, tv.Type)
	case *ast.TypeAssertExpr:
		v := ex.evalIface(fr, st, x.X)
		if st.dead {
			return zeroVal(tv.Type)
		}
		ex.mayPanic(st, "type assertion", Not(ex.hasType(fr, st, v, tv.Type)))
		return ex.unbox(st, v, tv.Type)
	}
	unsup("expression %T", e)
	return Val{}
}

func (ex *Exec) shortCircuit(fr *Frame, st *State, x *ast.BinaryExpr, t types.Type) Val {
	l := ex.eval(fr, st, x.X).L[0]
	if st.dead {
		return zeroVal(t)
	}
	need := l
	if x.Op == token.LOR {
		need = Not(l)
	}
	if need == False {
		return Val{T: t, L: []*Term{l}}
	}
	s2 := st.clone()
	assumeSplit(s2, need)
	if s2.dead {
		return Val{T: t, L: []*Term{l}}
	}
	n := len(s2.facts)
	h := len(s2.heap)
	r := ex.eval(fr, s2, x.Y)
	if s2.dead {
		st.assume(Not(need))
		return Val{T: t, L: []*Term{l}}
	}
	changed := len(s2.heap) != h
	if !changed {
		for k, v := range s2.heap {
			if st.heap[k] != v {
				changed = true
				break
			}
		}
	} else {
		changed = false
		for k, v := range s2.heap {
			if st.get(k) != v {
				changed = true
				break
			}
		}
	}
	if need == True {
		*st = *s2
		return Val{T: t, L: r.L}
	}
	if changed {
		s1 := st.clone()
		assumeSplit(s1, Not(need))
		m, _ := ex.mergeC(s2, s1)
		*st = *m
	} else {
		// definitions made by the second operand hold under need
		for _, f := range s2.facts[n:] {
			st.facts = appendFact(copyFacts(st.facts), Imp(need, f), hintFact[f])
		}
		for k, c := range s2.cells {
			if _, ok := st.cells[k]; !ok {
				st.cells[k] = c
			}
		}
	}
	if x.Op == token.LAND {
		return Val{T: t, L: []*Term{And(l, r.L[0])}}
	}
	return Val{T: t, L: []*Term{Or(l, r.L[0])}}
}

func (ex *Exec) equal(st *State, a, b Val) *Term {
	if isNilT(a.T) && !isNilT(b.T) {
		a, b = b, a
	}
	if isNilT(b.T) {
		return Eq(a.L[0], nilRef)
	}
	_, ai := a.T.Underlying().(*types.Interface)
	_, bi := b.T.Underlying().(*types.Interface)
	if ai != bi && len(a.L) != len(b.L) {
		unsup("comparison of %v with %v", a.T, b.T)
	}
	if len(a.L) != len(b.L) {
		unsup("comparison of %v with %v", a.T, b.T)
	}
	r := True
	for i := range a.L {
		x, y := a.L[i], b.L[i]
		if x.sort != y.sort {
			x, y = toReal(x), toReal(y)
		}
		r = And(r, Eq(x, y))
	}
	return r
}

func isNilT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (ex *Exec) binop(st *State, op token.Token, a, b Val, t types.Type) Val {
	bo := func(x *Term) Val { return Val{T: t, L: []*Term{x}} }
	switch op {
	case token.EQL:
		return bo(ex.equal(st, a, b))
	case token.NEQ:
		return bo(Not(ex.equal(st, a, b)))
	}
	x, y := a.L[0], b.L[0]
	if bt, ok := a.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		if op == token.ADD {
			return bo(App("u.strcat", IntS, x, y))
		}
		unsup("string operator %s", op)
	}
	if x.sort != y.sort && op != token.SHL && op != token.SHR {
		x, y = toReal(x), toReal(y)
	}
	switch op {
	case token.LSS:
		return bo(Lt(x, y))
	case token.LEQ:
		return bo(Le(x, y))
	case token.GTR:
		return bo(Gt(x, y))
	case token.GEQ:
		return bo(Ge(x, y))
	case token.ADD:
		return bo(Add(x, y))
	case token.SUB:
		return bo(Sub(x, y))
	case token.MUL:
		return bo(Mul(x, y))
	case token.QUO:
		if x.sort == RealS {
			return bo(Div(x, y))
		}
		ex.mayPanic(st, "division by zero", Eq(y, Int(0)))
		return bo(ex.intDiv(st, x, y))
	case token.REM:
		ex.mayPanic(st, "division by zero", Eq(y, Int(0)))
		return bo(ex.intMod(st, x, y))
	case token.LAND:
		return bo(And(x, y))
	case token.LOR:
		return bo(Or(x, y))
	case token.SHL:
		if n, ok := y.isInt(); ok && n >= 0 && n < 62 {
			return bo(Scale(x, ratI(1<<uint(n))))
		}
	case token.SHR:
		if n, ok := y.isInt(); ok && n >= 0 && n < 62 && ex.quickTrue(st, Ge(x, Int(0))) {
			return bo(IDiv(x, Int(1<<uint(n))))
		}
	case token.AND:
		if n, ok := y.isInt(); ok && n == 1 && ex.quickTrue(st, Ge(x, Int(0))) {
			return bo(IMod(x, Int(2)))
		}
	}
	return bo(App("u.op"+op.String(), x.sort, x, y))
}

func (ex *Exec) intDiv(st *State, x, y *Term) *Term {
	if ex.quickTrue(st, Ge(x, Int(0))) && ex.quickTrue(st, Gt(y, Int(0))) {
		return IDiv(x, y)
	}
	return App("u.tdiv", IntS, x, y)
}

func (ex *Exec) intMod(st *State, x, y *Term) *Term {
	if ex.quickTrue(st, Ge(x, Int(0))) && ex.quickTrue(st, Gt(y, Int(0))) {
		return IMod(x, y)
	}
	return App("u.tmod", IntS, x, y)
}

func (ex *Exec) addrOf(fr *Frame, st *State, e ast.Expr, t types.Type) Val {
	e = ast.Unparen(e)
	switch x := e.(type) {
	case *ast.CompositeLit:
		et := fr.info.TypeOf(x)
		v := ex.composite(fr, st, x, et)
		return ex.allocObj(fr, st, et, v)
	case *ast.Ident:
		o := fr.info.Uses[x]
		if c, ok := fr.env[o]; ok && ex.isBoxed(fr, o) {
			return Val{T: t, L: st.cells[c].L}
		}
		if v, ok := o.(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			unsup("address of a package variable")
		}
	case *ast.IndexExpr:
		unsup("address of an element")
	}
	unsup("address of %T", e)
	return Val{}
}

func (ex *Exec) allocObj(fr *Frame, st *State, et types.Type, v Val) Val {
	ref := ex.newRef()
	if namedName(et) == "mat.Dense" {
		ref = ex.newDenseRef()
	}
	st.storeField(structNameOf(et), "", ref, Val{T: et, L: v.L})
	ex.setTag(st, ref, types.NewPointer(et))
	if namedName(et) == "mat.Dense" {
		if n, ok := types.Unalias(et).(*types.Named); ok && n.TypeArgs().Len() > 0 {
			if d := ex.dtypeOf(fr, n.TypeArgs().At(0)); d != nil {
				ex.setDtype(st, ref, d)
			}
		}
	}
	return Val{T: types.NewPointer(et), L: []*Term{ref}}
}

func (ex *Exec) setDtype(st *State, ref, d *Term) {
	regHeap("dtype", dtLeaf, false)
	st.heap["dtype"] = Store(st.get("dtype"), ref, d)
}

func (ex *Exec) newArray(st *State, elem types.Type, n *Term) Val {
	arr := ex.newRef()
	ks, ls := memKeys(elem)
	for i, k := range ks {
		regHeap(k, ls[i], true)
		z := zeroLeaf(ls[i])
		bv := freshBV(IntS)
		st.heap[k] = Store(st.get(k), arr, Lambda(bv, z))
	}
	return Val{T: types.NewSlice(elem), L: []*Term{arr, Int(0), n, n}}
}

func (ex *Exec) composite(fr *Frame, st *State, x *ast.CompositeLit, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var parts []Val
		for i := 0; i < u.NumFields(); i++ {
			parts = append(parts, zeroVal(u.Field(i).Type()))
		}
		for i, el := range x.Elts {
			fi := i
			var ve ast.Expr = el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				ve = kv.Value
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						fi = j
					}
				}
			}
			v := ex.eval(fr, st, ve)
			if st.dead {
				return zeroVal(t)
			}
			parts[fi] = ex.convertAssign(st, v, u.Field(fi).Type())
		}
		r := Val{T: t}
		for i, p := range parts {
			if len(flatten(u.Field(i).Type())) != len(p.L) {
				unsup("composite field")
			}
			r.L = append(r.L, p.L...)
		}
		return r
	case *types.Slice:
		var vals []Val
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				_ = kv
				unsup("keyed slice literal")
			}
			v := ex.evalElt(fr, st, el, u.Elem())
			if st.dead {
				return zeroVal(t)
			}
			vals = append(vals, ex.convertAssign(st, v, u.Elem()))
		}
		n := int64(len(vals))
		s := ex.newArray(st, u.Elem(), Int(n))
		for i, v := range vals {
			st.storeElem(u.Elem(), s.L[0], Int(int64(i)), v)
		}
		return Val{T: t, L: s.L}
	case *types.Array:
		r := zeroVal(t)
		w := len(flatten(u.Elem()))
		for i, el := range x.Elts {
			v := ex.convertAssign(st, ex.evalElt(fr, st, el, u.Elem()), u.Elem())
			copy(r.L[i*w:], v.L)
		}
		return r
	case *types.Map:
		ref := ex.newRef()
		ex.newMap(st, ref, t)
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			k := ex.convertAssign(st, ex.eval(fr, st, kv.Key), u.Key())
			v := ex.convertAssign(st, ex.eval(fr, st, kv.Value), u.Elem())
			ex.mapSet(st, &LV{kind: 'm', T: u.Elem(), ref: ref, name: typeName(t), key: k}, v)
		}
		return Val{T: t, L: []*Term{ref}}
	}
	unsup("composite literal %v", t)
	return Val{}
}

func (ex *Exec) newMap(st *State, ref *Term, t types.Type) {
	hk := "map." + typeName(t) + ".has"
	regHeap(hk, Leaf{"", BoolS, 'B'}, true)
	st.heap[hk] = Store(st.get(hk), ref, Lambda(freshBV(IntS), False))
}

func (ex *Exec) evalElt(fr *Frame, st *State, e ast.Expr, et types.Type) Val {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		if p, ok := et.Underlying().(*types.Pointer); ok {
			v := ex.composite(fr, st, cl, p.Elem())
			return ex.allocObj(fr, st, p.Elem(), v)
		}
		return ex.composite(fr, st, cl, et)
	}
	return ex.eval(fr, st, e)
}

func (ex *Exec) sliceExpr(fr *Frame, st *State, x *ast.SliceExpr, t types.Type) Val {
	bt := fr.info.TypeOf(x.X)
	if _, ok := bt.Underlying().(*types.Slice); !ok {
		unsup("slicing of %v", bt)
	}
	v := ex.eval(fr, st, x.X)
	lo := Int(0)
	if x.Low != nil {
		lo = ex.eval(fr, st, x.Low).L[0]
	}
	if st.dead {
		return zeroVal(t)
	}
	hi := v.L[2]
	if x.High != nil {
		hi = ex.eval(fr, st, x.High).L[0]
	}
	cp := v.L[3]
	mx := cp
	if x.Max != nil {
		mx = ex.eval(fr, st, x.Max).L[0]
	}
	if st.dead {
		return zeroVal(t)
	}
	var conds []*Term
	if x.Low != nil {
		conds = append(conds, Ge(lo, Int(0)))
	}
	conds = append(conds, Le(lo, hi))
	if x.High != nil || x.Max != nil {
		conds = append(conds, Le(hi, mx))
	}
	if x.Max != nil {
		conds = append(conds, Le(mx, cp))
	}
	ex.mayPanic(st, "slice bounds out of range", Not(And(conds...)))
	return Val{T: t, L: []*Term{v.L[0], Add(v.L[1], lo), Sub(hi, lo), Sub(mx, lo)}}
}

func (ex *Exec) closure(fr *Frame, x *ast.FuncLit, t types.Type) Val {
	env := map[types.Object]int{}
	key := fmt.Sprintf("%d", x.Pos())
	for k, v := range fr.env {
		env[k] = v
	}
	// key by the captured variables only
	ast.Inspect(x.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if o := fr.info.Uses[id]; o != nil {
				if c, ok := fr.env[o]; ok {
					key += fmt.Sprintf(",%d", c)
				}
			}
		}
		return true
	})
	nf := &Frame{fi: fr.fi, info: fr.info, env: env, targs: fr.targs, depth: fr.depth, boxed: fr.boxed}
	return ex.regFunc(key, &FuncVal{lit: x, fr: nf, T: t})
}

func (ex *Exec) regFunc(key string, f *FuncVal) Val {
	n, ok := ex.fnames[key]
	if !ok {
		n = len(ex.fnames) + 1
		ex.fnames[key] = n
	}
	name := fmt.Sprintf("fn!%d", n)
	ex.funcs["c!"+name] = f
	return Val{T: f.T, L: []*Term{ctor(name)}}
}

func (ex *Exec) funcVal(fr *Frame, o *types.Func, id *ast.Ident, recv *Val) Val {
	f := &FuncVal{obj: o, recv: recv, T: o.Type()}
	key := o.FullName()
	if inst, ok := fr.info.Instances[id]; ok {
		f.targs = ex.instArgs(fr, o, inst.TypeArgs)
		f.T = inst.Type
		for _, a := range f.targs {
			if a.Dtype != nil {
				key += "|" + a.Dtype.String()
			}
		}
	}
	if recv != nil {
		key += "@" + ids(recv.L)
		sig := o.Type().(*types.Signature)
		f.T = types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	}
	f.fi = ex.prog.ByObj[o.Origin()]
	if f.fi == nil {
		f.std = funcKey(o)
	}
	return ex.regFunc(key, f)
}

func (ex *Exec) instArgs(fr *Frame, o *types.Func, ta *types.TypeList) map[*types.TypeParam]TArg {
	r := map[*types.TypeParam]TArg{}
	tps := o.Origin().Type().(*types.Signature).TypeParams()
	for i := 0; i < ta.Len() && i < tps.Len(); i++ {
		r[tps.At(i)] = ex.targ(fr, ta.At(i))
	}
	return r
}

func (ex *Exec) targ(fr *Frame, t types.Type) TArg {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		if a, ok := fr.targs[tp]; ok {
			return a
		}
		return TArg{T: t}
	}
	return TArg{T: t, Dtype: ex.dtypeOf(fr, t)}
}
