package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

var trace = 0

// limits on one function and one obligation
var fnLimit = 60 * time.Second
var obLimit = 20 * time.Second

type FnResult struct {
	Key      string
	Obs      []*Oblig
	Trivial  int
	Assumed  []string
	Trusted  []string
	Inlined  []string
	Used     []string
	Secs     float64
	Error    string
	Returns  int
	Where    string
	TrustedF string
}

func (ex *Exec) paramVal(name string, t types.Type, st *State, nilable bool) Val {
	v := Val{T: t}
	lf := flatten(t)
	isSlice := len(lf) == 4 && lf[0].Path == ".arr" && lf[3].Path == ".cap"
	for _, l := range lf {
		if strings.HasSuffix(l.Path, ".off") && l.Kind == 'N' {
			v.L = append(v.L, Int(0))
			continue
		}
		if strings.HasSuffix(l.Path, ".cap") && l.Kind == 'N' {
			v.L = append(v.L, Add(v.L[len(v.L)-1], VarNN("p."+name+l.Path+"x", IntS)))
			continue
		}
		x := Var("p."+name+l.Path, l.S)
		switch l.Kind {
		case 'N':
			x.nonneg = true
		case 'O', 'A', 'F':
			x.nonneg = true
			x.attr = 'r'
			if l.Kind == 'O' && !nilable && l.Path == "" {
				st.assume(Ge(x, Int(1)))
			}
			if l.Kind == 'F' && l.Path == "" && !nilable {
				st.assume(Ge(x, Int(1)))
			}
		}
		v.L = append(v.L, x)
	}
	if isSlice {
		st.assume(Or(Ge(v.L[0], Int(1)), Eq(v.L[2], Int(0))))
	}
	return v
}

// matrixFacts: what holds of every matrix argument.
func (ex *Exec) matrixFacts(st *State, v Val) {
	isM := namedName(v.T) == "mat.Matrix"
	if p, ok := v.T.Underlying().(*types.Pointer); ok && namedName(p.Elem()) == "mat.Dense" {
		isM = true
	}
	if isM {
		d := ex.dtypeRef(st, v.L[0])
		st.assume(Ge(d, Int(0)))
		st.assume(Le(d, Int(1)))
	}
}

var baseTerms map[string]*Term
var baseSeq, baseBV int

// resetTerms forgets every term of the previous function: the result for one
// function must not depend on what was verified before it.
func resetTerms() {
	if baseTerms == nil {
		baseTerms = map[string]*Term{}
		for k, t := range terms {
			baseTerms[k] = t
		}
		baseSeq, baseBV = termSeq, bvSeq
	}
	terms = map[string]*Term{}
	for k, t := range baseTerms {
		terms[k] = t
	}
	termSeq, bvSeq, skSeq = baseSeq, baseBV, 0
	hintFact = map[*Term]bool{}
	quickCache = map[string]bool{}
	smtCache = sync.Map{}
	proveDeadline = time.Time{}
}

// VerifyFn verifies one function against its contract; "split e" clauses
// divide the work into the cases e and not e.
func VerifyFn(prog *Program, specs *Specs, key string, millis int) *FnResult {
	n, cases := 0, 1
	if sp := specs.ByKey[key]; sp != nil {
		n = len(sp.all("split"))
		if sp.Cases > 0 {
			cases = sp.Cases + 1
		}
	}
	if n == 0 && cases == 1 {
		return verifyCase(prog, specs, key, millis, 0)
	}
	var res *FnResult
	reached := false
	var unreached []*Oblig
	for m := 0; m < cases<<n; m++ {
		r := verifyCase(prog, specs, key, millis, m)
		var obs []*Oblig
		ok := true
		for _, o := range r.Obs {
			if o.Name == key+":reach:vacuous" || o.Name == key+":reach:no path returns" {
				unreached = append(unreached, o)
				ok = false
				continue
			}
			obs = append(obs, o)
		}
		reached = reached || ok
		r.Obs = obs
		if res == nil {
			res = r
			continue
		}
		res.Obs = append(res.Obs, obs...)
		res.Assumed = mergeNames(res.Assumed, r.Assumed)
		res.Trusted = mergeNames(res.Trusted, r.Trusted)
		res.Inlined = mergeNames(res.Inlined, r.Inlined)
		res.Used = mergeNames(res.Used, r.Used)
		res.Trivial += r.Trivial
		res.Secs += r.Secs
		if r.Returns > res.Returns {
			res.Returns = r.Returns
		}
		if res.Error == "" {
			res.Error = r.Error
		}
	}
	if !reached {
		res.Obs = append(res.Obs, unreached[0])
	}
	return res
}

func mergeNames(a, b []string) []string {
	m := map[string]bool{}
	for _, x := range append(append([]string(nil), a...), b...) {
		m[x] = true
	}
	var l []string
	for x := range m {
		l = append(l, x)
	}
	sort.Strings(l)
	return l
}

func verifyCase(prog *Program, specs *Specs, key string, millis int, mask int) (res *FnResult) {
	start := time.Now()
	resetTerms()
	sp := specs.ByKey[key]
	res = &FnResult{Key: key}
	if sp != nil {
		res.Where = sp.Where
	}
	fi := prog.Funcs[key]
	ex := newExec(prog, specs)
	ex.fkey = key
	ex.deadline = start.Add(fnLimit)
	fail := func(msg string) {
		res.Error = msg
		res.Obs = append(res.Obs, &Oblig{Name: key + ":reach:" + msg, Kind: "unsupported", Goal: False, Status: "failed", Detail: msg})
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				res.Obs = append(res.Obs, ex.obs...)
				fail(u.Msg + " at " + ex.posStr(ex.pos))
			} else {
				if trace > 0 {
					panic(r)
				}
				fail(fmt.Sprintf("internal: %v at %s", r, ex.posStr(ex.pos)))
			}
		}
		for _, o := range res.Obs {
			if o.Status == "" {
				ex.discharge(o, millis)
			}
		}
		for k := range ex.assumed {
			res.Assumed = append(res.Assumed, k)
		}
		for k := range ex.trusted {
			res.Trusted = append(res.Trusted, k)
		}
		for k := range ex.inlined {
			res.Inlined = append(res.Inlined, k)
		}
		for k := range ex.used {
			res.Used = append(res.Used, k)
		}
		sort.Strings(res.Assumed)
		sort.Strings(res.Trusted)
		sort.Strings(res.Inlined)
		sort.Strings(res.Used)
		res.Trivial = ex.obSeen["trivial"]
		res.Secs = time.Since(start).Seconds()
	}()
	if sp == nil {
		fail("no contract")
		return
	}
	if fi == nil {
		fail("function not found")
		return
	}
	if fi.Decl.Body == nil {
		fail("no Go body")
		return
	}
	st := newState()
	sig := fi.Obj.Type().(*types.Signature)
	var recv *Val
	var args []Val
	pi := 0
	pname := func() string {
		if pi < len(sp.Params) {
			pi++
			return sp.Params[pi-1]
		}
		specFail("%s (%s): contract has %d parameters", key, sp.Where, len(sp.Params))
		return ""
	}
	if r := sig.Recv(); r != nil {
		n := pname()
		v := ex.paramVal(n, r.Type(), st, sp.Nilable[n])
		recv = &v
		ex.matrixFacts(st, v)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		n := pname()
		t := sig.Params().At(i).Type()
		v := ex.paramVal(n, t, st, sp.Nilable[n])
		args = append(args, v)
		ex.matrixFacts(st, v)
	}
	targs := map[*types.TypeParam]TArg{}
	var dT *Term
	bindTP := func(tps *types.TypeParamList) {
		if tps == nil {
			return
		}
		for i := 0; i < tps.Len(); i++ {
			tp := tps.At(i)
			a := TArg{T: tp}
			if isFloatTP(tp) {
				a.Dtype = VarNN("dtype."+tp.Obj().Name(), IntS)
				st.assume(Le(a.Dtype, Int(1)))
				dT = a.Dtype
			}
			targs[tp] = a
		}
	}
	bindTP(sig.TypeParams())
	fr0 := &Frame{targs: targs}
	if recv != nil {
		for k, v := range ex.recvTArgs(fr0, st, fi, recv) {
			if isFloatTP(k) && v.Dtype == nil {
				v.Dtype = VarNN("dtype."+k.Obj().Name(), IntS)
				st.assume(Le(v.Dtype, Int(1)))
			}
			targs[k] = v
			if v.Dtype != nil {
				dT = v.Dtype
			}
		}
	}
	if recv != nil && structNameOf(ptrElem(recv.T)) == "ag.Operator" {
		// the value of an operator is a matrix (the interface AutoGradFunction)
		if in := ex.innerOf(st, recv.L[0], "ag.Operator"); in != nil {
			ex.assumed["functions of operators return matrices"] = true
			ex.knowTag(in, types.NewPointer(ex.prog.Named["mat.Dense"]))
		}
	}
	pre := st.clone()
	ex.pre = pre
	env := ex.specEnvFor(sp, sig, recv, args, pre, pre)
	if dT != nil {
		env.vars["T"] = iv(dT)
	}
	env.addLets(sp)
	for _, c := range sp.all("requires") {
		st.assume(env.term(c.E))
	}
	for i, c := range sp.all("split") {
		t := env.term(c.E)
		if mask>>i&1 == 1 {
			t = Not(t)
		}
		assumeSplit(st, t)
	}
	for _, c := range sp.all("cases") {
		k, t := mask>>len(sp.all("split")), env.term(c.E)
		if k < sp.Cases {
			assumeSplit(st, Eq(t, Int(int64(k))))
		} else {
			assumeSplit(st, Or(Lt(t, Int(0)), Ge(t, Int(int64(sp.Cases)))))
		}
	}
	P := False
	for _, c := range sp.all("panics") {
		P = Or(P, env.term(c.E))
	}
	ex.panics = P
	ex.mayPan = sp.May
	E := False
	hasE := false
	for _, c := range sp.all("errs") {
		E = Or(E, env.term(c.E))
		hasE = true
	}
	hasE = hasE || sp.neverErrs(sig)
	if len(sp.Results) != sig.Results().Len() {
		specFail("%s: contract has %d results, function has %d", key, len(sp.Results), sig.Results().Len())
	}
	// run
	ex.joinSet(st, 0, Int(0))
	ex.joinSet(st, 1, Int(0))
	nf := ex.newFrame(fi, targs, 0)
	ex.bindParams(nf, st, fi.Decl.Type, fi.Decl.Recv, recv, args)
	ex.beginConc(sp, st, env)
	o := ex.block(nf, st, fi.Decl.Body.List)
	rets := o.rets
	if o.normal != nil && !o.normal.dead {
		var vals []Val
		for _, c := range nf.resC {
			vals = append(vals, o.normal.cells[c])
		}
		rets = append(rets, Ret{o.normal, vals})
	}
	live := 0
	for _, r := range rets {
		if r.st.dead {
			continue
		}
		ex.endFrame(nf, r.st, true)
		if r.st.dead {
			continue
		}
		live++
		ex.endConc(r.st)
		ex.pos = fi.Decl.Name.Pos()
		ex.noGuard++
		ex.checkReturn(sp, env, r, pre, P, E, hasE, sig)
		ex.noGuard--
	}
	res.Returns = live
	if live == 0 && P != True {
		ex.obs = append(ex.obs, &Oblig{Name: key + ":reach:no path returns", Kind: "unsupported", Goal: False, Status: "failed", Detail: "no reachable return"})
	}
	// vacuity: some return must be reachable under the facts
	if live > 0 {
		reach := false
		for _, r := range rets {
			if r.st.dead {
				continue
			}
			if !Prove(r.st.facts, False, 400, false).OK {
				reach = true
				break
			}
		}
		if !reach {
			if os.Getenv("GOCV_VAC") != "" {
				// shrink the contradictory facts
				fs := append([]*Term(nil), rets[0].st.facts...)
				for i := len(fs) - 1; i >= 0; i-- {
					g := append(append([]*Term(nil), fs[:i]...), fs[i+1:]...)
					if Prove(g, False, 400, false).OK {
						fs = g
					}
				}
				for _, f := range fs {
					fmt.Println("VAC ", f)
				}
			}
			ex.obs = append(ex.obs, &Oblig{Name: key + ":reach:vacuous", Kind: "unsupported", Goal: False, Status: "failed", Detail: "preconditions or paths are contradictory"})
		}
	}
	res.Obs = append(res.Obs, ex.obs...)
	return
}

func (ex *Exec) discharge(o *Oblig, millis int) {
	t0 := time.Now()
	if ex.solveDeadline.IsZero() {
		ex.solveDeadline = t0.Add(fnLimit)
	}
	if t0.After(ex.solveDeadline) {
		o.Status, o.Detail = "failed", "time limit for the function reached"
		return
	}
	proveDeadline = t0.Add(obLimit)
	r := Prove(o.Facts, o.Goal, millis, true)
	o.Secs = time.Since(t0).Seconds()
	o.Backend = r.Backend
	if r.OK {
		o.Status = "proved"
		return
	}
	o.Status = "failed"
	o.Detail = r.Status
	o.Model = r.Model
}

func (ex *Exec) checkReturn(sp *Spec, env *specEnv, r Ret, pre *State, P, E *Term, hasE bool, sig *types.Signature) {
	st := r.st
	if !ex.mayPan && P != False {
		ex.oblige(st, "nopanic", "must reject", Not(P))
	}
	post := &specEnv{ex: ex, st: st, pre: pre, vars: map[string]Val{}}
	up := *env
	up.st = st
	post.up = &up
	preEnv := &specEnv{ex: ex, st: pre, pre: pre, vars: post.vars, up: env}
	ridx := map[string]int{}
	for i, n := range sp.Results {
		post.vars[n] = r.vals[i]
		ridx[n] = i
	}
	okG := True
	ex.checkJoined(st)
	if hasE {
		err := r.vals[len(r.vals)-1].L[0]
		ex.oblige(st, "errs", "error condition", Iff(Not(Eq(err, nilRef)), E))
		okG = Not(E)
	}
	s2 := st
	if okG != True {
		s2 = st.clone()
		assumeSplit(s2, okG)
	}
	all := map[string]bool{}
	if !s2.dead {
		// fresh results
		for _, c := range sp.all("new") {
			i := ridx[c.Name]
			rt := r.vals[i].L[0]
			if c.Op {
				rt = ex.tensorValue(s2, rt)
			}
			rows, cols := preEnv.term(c.E), preEnv.term(c.E2)
			fr, fc := s2.dims(rt)
			ex.oblige(s2, "new", c.Name+" rows", Eq(fr, rows))
			ex.oblige(s2, "new", c.Name+" cols", Eq(fc, cols))
			ex.oblige(s2, "new", c.Name+" shape length", Eq(s2.denseField(rt, "shape.len"), Int(2)))
			ex.oblige(s2, "new", c.Name+" element count", Eq(s2.denseField(rt, "data.len"), Mul(rows, cols)))
			ex.oblige(s2, "fresh", c.Name+" is a new matrix", isFresh(rt))
			ex.oblige(s2, "fresh", c.Name+" has its own elements", Or(isFresh(s2.denseField(rt, "data.arr")), Eq(Mul(rows, cols), Int(0))))
			ex.oblige(s2, "fresh", c.Name+" has its own shape", isFresh(s2.denseField(rt, "shape.arr")))
			var dt *Term
			if c.E3 != nil {
				dt = preEnv.term(c.E3)
			} else {
				var vs []Val
				for _, p := range sp.Params {
					vs = append(vs, env.vars[p])
				}
				if dt = firstDense(ex, pre, vs); dt == nil {
					if t, ok := env.vars["T"]; ok {
						dt = t.L[0]
					}
				}
			}
			if dt != nil {
				ex.oblige(s2, "new", c.Name+" element type", Eq(ex.dtypeRef(s2, rt), dt))
			}
		}
		ex.checkAllocs(sp, s2, post, preEnv)
		for i := range sp.Clauses {
			c := &sp.Clauses[i]
			switch c.Kind {
			case "def":
				ex.checkDef(sp, c, s2, pre, post, preEnv, ridx)
			case "ret":
				got := r.vals[ridx[c.Name]]
				want := preEnv.eval(c.E)
				if isNilT(want.T) {
					want = zeroVal(got.T)
				}
				g := True
				if len(want.L) != len(got.L) {
					specFail("ret %s shape", c.Name)
				}
				for k := range got.L {
					a, b := unify2(got.L[k], want.L[k])
					g = And(g, Eq(a, b))
				}
				ex.obligeP(s2, c, "ret", c.Name, g)
			case "own":
				if id, ok := c.E.(*ast.Ident); ok {
					v := r.vals[ridx[id.Name]]
					g := isFresh(v.L[0])
					if len(v.L) == 4 {
						g = Or(g, Eq(v.L[2], Int(0)))
					}
					ex.oblige(s2, "fresh", id.Name+" is newly allocated", g)
				}
			case "ensures":
				ex.obligeP(s2, c, "ensures", shortSrc(c.Src), post.term(c.E))
			case "set":
				if ce, isC := c.L.(*ast.CallExpr); isC {
					d := preEnv.term(ce.Args[0])
					if exprStr(ce.Fun) == "closed" {
						ex.obligeP(s2, c, "set", exprStr(c.L), Eq(ex.isClosed(s2, d), preEnv.term(c.E)))
						continue
					}
					rr, cc := s2.dims(d)
					got := rr
					if exprStr(ce.Fun) == "cols" {
						got = cc
					}
					ex.obligeP(s2, c, "set", exprStr(c.L), Eq(got, preEnv.term(c.E)))
					key := "inv:" + d.String()
					if !all[key] {
						all[key] = true
						ex.oblige(s2, "new", "element count of "+exprStr(ce.Args[0]), Eq(s2.denseField(d, "data.len"), Mul(rr, cc)))
						ex.oblige(s2, "new", "shape length of "+exprStr(ce.Args[0]), Eq(s2.denseField(d, "shape.len"), Int(2)))
					}
					continue
				}
				lv := preEnv.specLV(c.L, s2)
				got := ex.load(s2, lv)
				want := preEnv.eval(c.E)
				if isNilT(want.T) {
					want = zeroVal(lv.T)
				}
				g := True
				for k := range got.L {
					a, b := unify2(got.L[k], want.L[k])
					g = And(g, Eq(a, b))
				}
				ex.obligeP(s2, c, "set", exprStr(c.L), g)
			}
		}
		ex.checkFrame(sp, s2, pre, preEnv, okG)
		ex.checkGrads(sp, s2, pre, preEnv)
	}
	if hasE && E != False {
		s3 := st.clone()
		assumeSplit(s3, E)
		if !s3.dead {
			ex.checkFrameErr(sp, s3, pre)
		}
	}
}

func (ex *Exec) obligeP(st *State, c *Clause, kind, name string, g *Term) {
	n := len(ex.obs)
	ex.oblige(st, kind, name, g)
	if c.Prop != "" && len(ex.obs) > n {
		ex.obs[len(ex.obs)-1].Kind = kind + "@" + c.Prop
	}
}

func (ex *Exec) checkDef(sp *Spec, c *Clause, st, pre *State, post, preEnv *specEnv, ridx map[string]int) {
	name := strings.TrimSpace(c.Name)
	var v Val
	if j, ok := ridx[name]; ok {
		v = post.vars[sp.Results[j]]
	} else {
		v = preEnv.eval(c.L)
	}
	if len(v.L) == 4 {
		// slice
		i := ex.fresh("i", IntS)
		s2 := st.clone()
		s2.assume(Ge(i, Int(0)))
		s2.assume(Lt(i, v.L[2]))
		got := s2.loadElem(elemType(v.T), v.L[0], Add(v.L[1], i))
		want := preEnv.child(c.Idx[0], iv(i)).eval(c.E)
		g := True
		for k := range got.L {
			a, b := unify2(got.L[k], want.L[k])
			g = And(g, Eq(a, b))
		}
		ex.obligeP(s2, c, "def", name+" elements", g)
		return
	}
	d := v.L[0]
	if cl := preEnvNew(sp, name); cl != nil && cl.Op {
		d = ex.tensorValue(st, d)
	}
	if d == nilRef {
		ex.obligeP(st, c, "def", name+" elements", False)
		return
	}
	rows, cols := st.dims(d)
	if cl := preEnvNew(sp, name); cl != nil {
		rows, cols = preEnv.term(cl.E), preEnv.term(cl.E2)
	}
	s2 := st.clone()
	if len(c.Idx) == 1 {
		i := ex.fresh("i", IntS)
		s2.assume(Ge(i, Int(0)))
		s2.assume(Lt(i, Mul(rows, cols)))
		ex.obligeP(s2, c, "def", name+" elements", Eq(s2.matAt(d, i), preEnv.child(c.Idx[0], iv(i)).rterm(c.E)))
		return
	}
	i, j := ex.fresh("i", IntS), ex.fresh("j", IntS)
	s2.assume(Ge(i, Int(0)))
	s2.assume(Lt(i, rows))
	s2.assume(Ge(j, Int(0)))
	s2.assume(Lt(j, cols))
	// consequences used by every row-major access
	fl := Add(Mul(i, cols), j)
	s2.assume(markHint(Lt(fl, Mul(rows, cols))))
	s2.assume(markHint(Ge(fl, Int(0))))
	want := preEnv.child(c.Idx[0], iv(i)).child(c.Idx[1], iv(j)).rterm(c.E)
	ex.obligeP(s2, c, "def", name+" elements", Eq(s2.matAt(d, fl), want))
}

// checkAllocs: the matrices named by alloc clauses are new, distinct and zero.
func (ex *Exec) checkAllocs(sp *Spec, st *State, post, preEnv *specEnv) {
	cs := sp.all("alloc")
	var refs, conds []*Term
	for _, c := range cs {
		d := ex.load(st, post.specLV(c.L, st)).L[0]
		cond := True
		n := exprStr(c.L)
		if c.E3 != nil {
			cond = preEnv.term(c.E3)
			ex.oblige(st, "new", n+" absent", Or(cond, Eq(d, nilRef)))
		}
		s2 := st
		if cond != True {
			s2 = st.clone()
			assumeSplit(s2, cond)
			if s2.dead {
				refs, conds = append(refs, d), append(conds, False)
				continue
			}
		}
		rows, cols := preEnv.term(c.E), preEnv.term(c.E2)
		fr, fc := s2.dims(d)
		ex.oblige(s2, "new", n+" rows", Eq(fr, rows))
		ex.oblige(s2, "new", n+" cols", Eq(fc, cols))
		ex.oblige(s2, "new", n+" shape length", Eq(s2.denseField(d, "shape.len"), Int(2)))
		ex.oblige(s2, "new", n+" element count", Eq(s2.denseField(d, "data.len"), Mul(rows, cols)))
		ex.oblige(s2, "fresh", n+" is a new matrix", isFresh(d))
		ex.oblige(s2, "fresh", n+" has its own elements", Or(isFresh(s2.denseField(d, "data.arr")), Eq(Mul(rows, cols), Int(0))))
		ex.oblige(s2, "fresh", n+" has its own shape", isFresh(s2.denseField(d, "shape.arr")))
		s3 := s2.clone()
		i := ex.fresh("i", IntS)
		s3.assume(Ge(i, Int(0)))
		s3.assume(Lt(i, Mul(rows, cols)))
		ex.oblige(s3, "def", n+" starts at zero", Eq(s3.matAt(d, i), RealN(0)))
		for k := range refs {
			if conds[k] == False {
				continue
			}
			s4 := s2.clone()
			assumeSplit(s4, conds[k])
			if s4.dead {
				continue
			}
			ex.oblige(s4, "fresh", n+" is not "+exprStr(cs[k].L), And(Not(Eq(d, refs[k])),
				Or(Not(Eq(s4.denseField(d, "data.arr"), s4.denseField(refs[k], "data.arr"))), Eq(Mul(rows, cols), Int(0)))))
		}
		refs, conds = append(refs, d), append(conds, cond)
	}
}

func preEnvNew(sp *Spec, name string) *Clause {
	for i := range sp.Clauses {
		if sp.Clauses[i].Kind == "new" && sp.Clauses[i].Name == name {
			return &sp.Clauses[i]
		}
	}
	return nil
}

// allowed modifications: heap key -> references
func (ex *Exec) modSet(sp *Spec, st, pre *State, env *specEnv) map[string][]*Term {
	m := map[string][]*Term{}
	add := func(k string, t *Term) { m[k] = append(m[k], t) }
	for i := range sp.Clauses {
		c := &sp.Clauses[i]
		switch c.Kind {
		case "mod":
			if mk, ref := env.modMap(c.E); len(mk) > 0 {
				for k := range mk {
					add(k, ref)
				}
				continue
			}
			add("mem.R", pre.denseField(env.term(c.E), "data.arr"))
		case "def":
			isRes := false
			for _, r := range sp.Results {
				if r == strings.TrimSpace(c.Name) {
					isRes = true
				}
			}
			if isRes {
				continue
			}
			v := env.eval(c.L)
			if len(v.L) == 4 {
				ks, _ := memKeys(elemType(v.T))
				for _, k := range ks {
					add(k, v.L[0])
				}
			} else {
				add("mem.R", pre.denseField(v.L[0], "data.arr"))
			}
		case "havoc", "set":
			x := c.E
			if c.Kind == "set" {
				x = c.L
			}
			if ce, isC := x.(*ast.CallExpr); isC {
				if exprStr(ce.Fun) == "closed" {
					add(closedKey(), env.term(ce.Args[0]))
					continue
				}
				add("mem.I", pre.denseField(env.term(ce.Args[0]), "shape.arr"))
				// the representation of the shape may be replaced
				for _, f := range []string{"shape.arr", "shape.off", "shape.cap"} {
					add("F.mat.Dense."+f, env.term(ce.Args[0]))
				}
				continue
			}
			lv := env.specLV(x, st)
			for _, l := range flatten(lv.T) {
				add(fieldKey(lv.name, lv.path+l.Path), lv.ref)
			}
		}
	}
	return m
}

func (ex *Exec) checkFrame(sp *Spec, st, pre *State, env *specEnv, okG *Term) {
	mods := ex.modSet(sp, st, pre, env)
	for _, k := range st.heapKeys() {
		if k == "tag" || k == "dtype" || strings.HasPrefix(k, "ghost.") && k != "ghost.closed" {
			continue
		}
		a, b := st.heap[k], pre.get(k)
		if a == b {
			continue
		}
		q := Var("q!pre", IntS)
		var guard []*Term
		for _, m := range mods[k] {
			guard = append(guard, Eq(q, m))
		}
		x, y := Select(a, q), Select(b, q)
		if x == y {
			continue
		}
		ex.oblige(st, "frame", k+" unchanged", Or(append(guard, eqLocB(x, y))...))
	}
}

func (ex *Exec) checkFrameErr(sp *Spec, st, pre *State) {
	for _, k := range st.heapKeys() {
		if k == "tag" || k == "dtype" || k == "ghost.join" {
			continue
		}
		a, b := st.heap[k], pre.get(k)
		if a == b {
			continue
		}
		q := Var("q!pre", IntS)
		x, y := Select(a, q), Select(b, q)
		if x == y {
			continue
		}
		ex.oblige(st, "frame", k+" unchanged on error", eqLocB(x, y))
	}
}

func (ex *Exec) checkGrads(sp *Spec, st, pre *State, env *specEnv) {
	has := len(sp.all("grad"))+len(sp.all("post"))+len(sp.all("grads")) > 0
	g0, gn0 := pre.get(ghostG()), pre.get(ghostGn())
	g1, gn1 := st.get(ghostG()), st.get(ghostGn())
	if g0 == g1 && gn0 == gn1 && !has {
		return
	}
	q, i := VarNN("t!q", IntS), VarNN("i!q", IntS)
	want := Select(Select(g0, q), i)
	wantN := Select(gn0, q)
	var sel []*Term
	for ci := range sp.Clauses {
		c := &sp.Clauses[ci]
		switch c.Kind {
		case "grad", "post":
			t := env.term(c.L)
			rq := Eq(q, t)
			if c.Kind == "grad" {
				rq = And(rq, ex.reqOf(pre, t))
			}
			want = Add(want, Ite(rq, env.child(c.Idx[0], iv(i)).rterm(c.E), RealN(0)))
			wantN = Add(wantN, Ite(rq, RealN(1), RealN(0)))
			sel = append(sel, t)
		case "grads":
			ng, ngn := env.gradsEffect(c, g0, gn0, True)
			want = Add(want, Sub(Select(Select(ng, q), i), Select(Select(g0, q), i)))
			wantN = Add(wantN, Sub(Select(ngn, q), Select(gn0, q)))
		}
	}
	s2 := st.clone()
	// only positions inside the operand matter
	vr, vc := pre.dims(tval(q))
	s2.assume(Lt(i, Mul(vr, vc)))
	goal := Eq(Select(Select(g1, q), i), want)
	if len(sel) > 1 {
		// one case per operand, and the objects that are no operand
		var parts []*Term
		var not []*Term
		for _, t := range sel {
			parts = append(parts, Imp(And(append([]*Term{Eq(q, t)}, not...)...), goal))
			not = append(not, Not(Eq(q, t)))
		}
		goal = And(append(parts, Imp(And(not...), goal))...)
	}
	ex.oblige(s2, "grad", "posted gradient", goal)
	ex.oblige(st, "gradn", "number of posts", Eq(Select(gn1, q), wantN))
}

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
