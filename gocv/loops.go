package main

// Loops.  A loop whose trip count is a constant is executed iteration by
// iteration.  Any other loop is summarised: a ghost iteration counter k is
// introduced, candidate closed forms (as functions of k) of everything the
// body modifies are guessed from one symbolic run of the body, and every
// candidate is then proved to be a loop invariant (it holds at k=0 and is
// preserved by the body).  What cannot be summarised is havocked.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

type loc struct {
	cell int
	leaf int
	key  string
}

func (l loc) String() string {
	if l.key != "" {
		return l.key
	}
	return fmt.Sprintf("c%d.%d", l.cell, l.leaf)
}

type loopSpec struct {
	cond func(st *State) *Term
	body func(st *State) *Outcome
	preK func(st *State, k *Term)
	K    *Term
}

func (ex *Exec) forStmt(fr *Frame, st *State, s *ast.ForStmt, label string) *Outcome {
	if s.Init != nil {
		o := ex.stmt(fr, st, s.Init, "")
		st = o.normal
		if st == nil {
			return norm(nil)
		}
	}
	ls := loopSpec{}
	ls.cond = func(st *State) *Term {
		if s.Cond == nil {
			return True
		}
		return ex.eval(fr, st, s.Cond).L[0]
	}
	ls.body = func(st *State) *Outcome {
		o := ex.block(fr, st, s.Body.List)
		cs := append([]*State{o.normal}, o.cont[""]...)
		delete(o.cont, "")
		if label != "" {
			cs = append(cs, o.cont[label]...)
			delete(o.cont, label)
		}
		o.normal = ex.mergeAll(cs)
		if s.Post != nil && o.normal != nil {
			p := ex.stmt(fr, o.normal, s.Post, "")
			o.normal = p.normal
		}
		return o
	}
	return ex.runLoop(fr, st, ls, label)
}

// dropGarbage forgets what the objects allocated in iteration k hold, when
// nothing that survives the iteration refers to them (the index lists of
// variadic calls, for instance).
func dropGarbage(outer, s *State, k *Term) {
	own := func(t *Term) bool {
		return t.op == OApp && strings.HasPrefix(t.name, "c!obj") && len(t.args) > 0 && t.args[len(t.args)-1] == k
	}
	type st struct {
		heap     string
		idx, val *Term
	}
	var stores []st
	base := map[string]*Term{}
	var roots []*Term
	cand := false
	for _, h := range s.heapKeys() {
		t := s.heap[h]
		for t.op == OStore {
			stores = append(stores, st{h, t.args[1], t.args[2]})
			cand = cand || own(t.args[1])
			if !own(t.args[1]) {
				roots = append(roots, t.args[1], t.args[2])
			}
			t = t.args[0]
		}
		base[h] = t
		roots = append(roots, t)
	}
	if !cand {
		return
	}
	for c := range outer.cells {
		if v, ok := s.cells[c]; ok {
			roots = append(roots, v.L...)
		}
	}
	live := map[*Term]bool{}
	mark := func(ts []*Term) {
		visitAll(ts, func(t *Term) {
			if own(t) {
				live[t] = true
			}
		})
	}
	mark(roots)
	done := map[*Term]bool{}
	for ch := true; ch; {
		ch = false
		for _, x := range stores {
			if own(x.idx) && live[x.idx] && !done[x.val] {
				done[x.val] = true
				mark([]*Term{x.val})
				ch = true
			}
		}
	}
	for _, h := range s.heapKeys() {
		dead := false
		for _, x := range stores {
			dead = dead || x.heap == h && own(x.idx) && !live[x.idx]
		}
		if !dead {
			continue
		}
		t := base[h]
		for i := len(stores) - 1; i >= 0; i-- {
			if x := stores[i]; x.heap == h && !(own(x.idx) && !live[x.idx]) {
				t = Store(t, x.idx, x.val)
			}
		}
		s.heap[h] = t
	}
}

func (ex *Exec) rangeStmt(fr *Frame, st *State, s *ast.RangeStmt, label string) *Outcome {
	xt := fr.info.TypeOf(s.X)
	var n *Term
	var xv Val
	var arrLV *LV
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		xv = ex.eval(fr, st, s.X)
		if st.dead {
			return norm(nil)
		}
		n = xv.L[2]
	case *types.Array:
		arrLV = ex.lvalOrTemp(fr, st, s.X)
		n = Int(u.Len())
	case *types.Basic:
		if u.Info()&types.IsInteger == 0 {
			unsup("range over %v", xt)
		}
		xv = ex.eval(fr, st, s.X)
		n = xv.L[0]
		if !ex.quickTrue(st, Ge(n, Int(0))) {
			n = Ite(Ge(n, Int(0)), n, Int(0))
		}
	default:
		if isTP(xt) && coreSlice(types.Unalias(xt).(*types.TypeParam)) != nil {
			xv = ex.eval(fr, st, s.X)
			n = xv.L[2]
			break
		}
		unsup("range over %v", xt)
	}
	ls := loopSpec{K: n}
	set := func(st *State, e ast.Expr, v Val) {
		if e == nil {
			return
		}
		id, ok := e.(*ast.Ident)
		if ok && id.Name == "_" {
			return
		}
		if s.Tok == token.DEFINE {
			o := fr.info.Defs[id]
			ex.declare(fr, st, o, ex.convertAssign(st, v, o.Type()))
			return
		}
		lv := ex.lval(fr, st, e)
		ex.store(st, lv, ex.convertAssign(st, v, lv.T))
	}
	ls.preK = func(st *State, k *Term) {
		set(st, s.Key, Val{T: types.Typ[types.Int], L: []*Term{k}})
		if s.Value != nil {
			if id, ok := s.Value.(*ast.Ident); ok && id.Name == "_" {
				return
			}
			if arrLV != nil {
				n, ok := k.isInt()
				if !ok {
					unsup("array range")
				}
				et := xt.Underlying().(*types.Array).Elem()
				b := *arrLV
				b.T = et
				if b.kind == 'c' {
					b.off += int(n) * len(flatten(et))
				} else {
					b.path += fmt.Sprintf(".%d", n)
				}
				set(st, s.Value, ex.load(st, &b))
				return
			}
			et := elemType(xt)
			set(st, s.Value, st.loadElem(et, xv.L[0], Add(xv.L[1], k)))
		}
	}
	ls.body = func(st *State) *Outcome {
		o := ex.block(fr, st, s.Body.List)
		cs := append([]*State{o.normal}, o.cont[""]...)
		delete(o.cont, "")
		if label != "" {
			cs = append(cs, o.cont[label]...)
			delete(o.cont, label)
		}
		o.normal = ex.mergeAll(cs)
		return o
	}
	return ex.runLoop(fr, st, ls, label)
}

const maxUnroll = 24

func (ex *Exec) runLoop(fr *Frame, st *State, ls loopSpec, label string) *Outcome {
	collect := func(out *Outcome, o *Outcome, exits *[]*State) {
		*exits = append(*exits, o.brk[""]...)
		delete(o.brk, "")
		if label != "" {
			*exits = append(*exits, o.brk[label]...)
			delete(o.brk, label)
		}
		out.join(o)
	}
	// constant trip count
	unroll := false
	if ls.K != nil {
		kk := ls.K
		if _, ok := kk.isInt(); !ok {
			kk = ex.constOf(st, kk)
		}
		if n, ok := kk.isInt(); ok && n <= maxUnroll {
			unroll = true
			ls.K = kk
			out := norm(nil)
			var exits []*State
			cur := st
			for i := int64(0); i < n && cur != nil && !cur.dead; i++ {
				ls.preK(cur, Int(i))
				o := ls.body(cur)
				cur = o.normal
				o.normal = nil
				collect(out, o, &exits)
			}
			out.normal = ex.mergeAll(append(exits, cur))
			return out
		}
	} else {
		// try: every condition must be decided
		seq0 := ex.seq
		ex.quiet++
		cur := st.clone()
		ok := true
		n := 0
		for cur != nil && !cur.dead {
			c := ls.cond(cur)
			d := ex.decide(cur, c)
			if d == 0 {
				break
			}
			if d < 0 || n >= maxUnroll {
				ok = false
				break
			}
			n++
			if trace > 2 && n == 2 {
				fmt.Printf("UNROLL5 %s false=%v cond=%s\n", ex.posStr(ex.pos), ex.quickTrue(cur, False), c)
				for _, f := range cur.facts {
					fmt.Println("   ", f)
				}
			}
			o := ls.body(cur)
			cur = o.normal
		}
		ex.quiet--
		if ok {
			ex.seq = seq0
			unroll = true
			out := norm(nil)
			var exits []*State
			cur := st
			for i := 0; i < n && cur != nil && !cur.dead; i++ {
				c := ls.cond(cur)
				_ = c
				o := ls.body(cur)
				cur = o.normal
				o.normal = nil
				collect(out, o, &exits)
			}
			if cur != nil && !cur.dead {
				ls.cond(cur)
			}
			out.normal = ex.mergeAll(append(exits, cur))
			return out
		}
		ex.seq = seq0
	}
	_ = unroll
	out := norm(nil)
	var exits []*State
	o := ex.symLoop(fr, st, ls)
	nat := o.normal
	o.normal = nil
	collect(out, o, &exits)
	out.normal = ex.mergeAll(append(exits, nat))
	return out
}

// constOf tries to show that t is a small constant under the facts.
func (ex *Exec) constOf(st *State, t *Term) *Term {
	for _, f := range st.facts {
		if f.op == OEq0 {
			if a, r := solveEq(f); a != nil && a == t {
				if _, ok := r.isInt(); ok {
					return r
				}
			}
		}
	}
	// facts mentioning t through arithmetic
	for n := int64(0); n <= 3; n++ {
		if mentions(st.facts, t) && QuickProve(st.facts, Eq(t, Int(n))) {
			return Int(n)
		}
	}
	return t
}

func mentions(fs []*Term, t *Term) bool {
	for _, f := range fs {
		for v := range freeOf(t) {
			if freeOf(f)[v] {
				return true
			}
		}
	}
	return false
}

func (ex *Exec) symLoop(fr *Frame, st *State, ls loopSpec) *Outcome {
	base := ex.seq
	ex.seq++
	k := VarNN(fmt.Sprintf("k!%d", ex.seq), IntS)
	base1 := ex.seq
	maxSeq := base1
	mods := map[loc]bool{}
	syms := map[loc]*Term{}
	forms := map[loc]*Term{}
	never := map[loc]bool{}
	invs := map[loc][]*Term{} // invariants over syms and k
	dropped := map[*Term]bool{}
	// maps of which the body writes only the listed rows
	partial := map[loc][]*Term{}
	noPartial := map[loc]bool{}
	symOf := func(l loc) *Term {
		if t, ok := syms[l]; ok {
			return t
		}
		var t *Term
		name := fmt.Sprintf("v.%s!%d", l, base)
		if l.key != "" {
			t = Var(name, heapSort[l.key])
			if heapLeaf[l.key].Kind == 'N' {
				t.attr = 'N'
			}
		} else {
			v := st.cells[l.cell]
			t = Var(name, v.L[l.leaf].sort)
			if lf := flatten(v.T); l.leaf < len(lf) && lf[l.leaf].Kind == 'N' {
				t.nonneg = true
			}
		}
		syms[l] = t
		return t
	}
	cur := func(s *State, l loc) *Term {
		if l.key != "" {
			return s.get(l.key)
		}
		c, ok := s.cells[l.cell]
		if !ok {
			return nil
		}
		return c.L[l.leaf]
	}
	set := func(s *State, l loc, t *Term) {
		if l.key != "" {
			s.heap[l.key] = t
			return
		}
		v := s.cells[l.cell]
		nl := append([]*Term(nil), v.L...)
		nl[l.leaf] = t
		s.cells[l.cell] = Val{T: v.T, L: nl}
	}
	order := func() []loc {
		var ls []loc
		for l := range mods {
			ls = append(ls, l)
		}
		sort.Slice(ls, func(i, j int) bool {
			a, b := ls[i], ls[j]
			if a.key != b.key {
				return a.key < b.key
			}
			if a.cell != b.cell {
				return a.cell < b.cell
			}
			return a.leaf < b.leaf
		})
		return ls
	}
	at := func(t, kk *Term) *Term { return subst1(t, k, kk) }
	mk := func(kk *Term, guarded bool) *State {
		s := st.clone()
		for _, l := range order() {
			if f, ok := forms[l]; ok {
				set(s, l, at(f, kk))
			} else if rs, ok := partial[l]; ok {
				set(s, l, keepRows(cur(st, l), symOf(l), rs))
			} else {
				set(s, l, symOf(l))
			}
		}
		s.facts = copyFacts(st.facts)
		if guarded {
			s.assume(Ge(kk, Int(0)))
			if ls.K != nil {
				s.assume(Lt(kk, ls.K))
			}
		}
		for _, l := range order() {
			if _, ok := forms[l]; ok {
				continue
			}
			for _, iv := range invs[l] {
				if !dropped[iv] {
					s.assume(at(iv, kk))
				}
			}
		}
		return s
	}
	var condT *Term
	run := func(s *State) *Outcome {
		ex.seq = base1
		ex.loopKs = append(ex.loopKs, k)
		defer func() {
			ex.loopKs = ex.loopKs[:len(ex.loopKs)-1]
			if ex.seq > maxSeq {
				maxSeq = ex.seq
			}
		}()
		if ls.K == nil {
			condT = ls.cond(s)
			assumeSplit(s, condT)
			if s.dead {
				return norm(nil)
			}
		}
		if ls.preK != nil {
			ls.preK(s, k)
		}
		o := ls.body(s)
		if o.normal != nil {
			dropGarbage(st, o.normal, k)
		}
		return o
	}
	diffs := func(s0, s1 *State) []loc {
		var r []loc
		for c, v := range s0.cells {
			w, ok := s1.cells[c]
			if !ok {
				continue
			}
			for i := range v.L {
				if v.L[i] != w.L[i] {
					r = append(r, loc{cell: c, leaf: i})
				}
			}
		}
		for kk, w := range s1.heap {
			v := s0.get(kk)
			if v != w {
				r = append(r, loc{key: kk})
			}
		}
		return r
	}
	ex.quiet++
	defer func() {}()
	unq := false
	unquiet := func() {
		if !unq {
			ex.quiet--
			unq = true
		}
	}
	defer unquiet()
	var out *Outcome
	// 1. modified locations
	for {
		s := mk(k, true)
		s0 := s.clone()
		out = run(s)
		grew := false
		if out.normal != nil {
			for _, l := range diffs(s0, out.normal) {
				if l.key == "" {
					if _, ok := st.cells[l.cell]; !ok {
						continue
					}
				}
				if !mods[l] {
					mods[l] = true
					grew = true
				}
			}
		}
		if !grew {
			break
		}
	}
	// 2. closed forms
	hasSym := func(t *Term) bool {
		fv := freeOf(t)
		for l, s := range syms {
			if forms[l] == nil && fv[s] {
				return true
			}
		}
		return false
	}
	// temporaries created inside the body must not leak into forms
	fresh := func(t *Term) bool {
		for v := range freeOf(t) {
			if n := seqOf(v); v.op == OVar && n > base1 {
				return true
			}
		}
		return false
	}
	// conditional last assignments: v' = if c then g else v
	type condUpd struct{ c, g, v0, form *Term }
	var conds []condUpd
	for round := 0; round < 12 && out.normal != nil; round++ {
		progress := false
		for {
			again := false
			for _, l := range order() {
				if forms[l] != nil || never[l] {
					continue
				}
				t := cur(out.normal, l)
				if t == nil {
					never[l] = true
					continue
				}
				sub := map[*Term]*Term{}
				for l2, s2 := range syms {
					if f := forms[l2]; f != nil {
						sub[s2] = f
					}
				}
				if len(sub) > 0 {
					t = Subst(t, sub)
				}
				init := cur(st, l)
				isBad := func(x *Term) bool { return hasSym(x) || fresh(x) }
				f := ex.guess(t, symOf(l), init, k, isBad)
				if f != nil && t.op == OIte && t.args[2] == symOf(l) && !occurs(symOf(l), t.args[1]) && !isBad(t.args[1]) {
					conds = append(conds, condUpd{Subst(t.args[0], map[*Term]*Term{symOf(l): f}), t.args[1], init, f})
				}
				if f != nil && t.op == OIte && t.args[1] == symOf(l) && !occurs(symOf(l), t.args[2]) && !isBad(t.args[2]) {
					conds = append(conds, condUpd{Not(Subst(t.args[0], map[*Term]*Term{symOf(l): f})), t.args[2], init, f})
				}
				if f == nil {
					continue
				}
				if freeOf(f)[infR()] {
					f = ctxSimp(f)
				}
				if trace > 1 {
					fmt.Printf("loop %s: guess %s := %s\n", ex.posStr(ex.pos), l, f)
				}
				forms[l] = f
				again, progress = true, true
			}
			if !again {
				break
			}
		}
		if progress {
			s := mk(k, true)
			out = run(s)
			if out.normal == nil {
				break
			}
			continue
		}
		// what changes only in some iterations may not change at all (an append
		// within the capacity); the candidate is verified like any other
		for _, l := range order() {
			if forms[l] != nil || never[l] || l.key != "" {
				continue
			}
			t := cur(out.normal, l)
			if t != nil && t.op == OIte && (t.args[1] == symOf(l) || t.args[2] == symOf(l)) {
				forms[l] = cur(st, l)
				progress = true
			}
		}
		if progress {
			s := mk(k, true)
			out = run(s)
			if out.normal == nil {
				break
			}
			continue
		}
		// rows that the body never writes keep their content
		for _, l := range order() {
			if forms[l] != nil || noPartial[l] || l.key == "" || partial[l] != nil {
				continue
			}
			t := cur(out.normal, l)
			if t == nil || symOf(l).sort.K != 'A' {
				continue
			}
			rs, ok := storeRoots(t, symOf(l), cur(st, l), func(r *Term) bool { return occurs(k, r) || hasSym(r) || fresh(r) })
			if ok && len(rs) > 0 {
				partial[l] = rs
				progress = true
			}
		}
		if progress {
			s := mk(k, true)
			out = run(s)
			if out.normal == nil {
				break
			}
			continue
		}
		// template invariants for what is left
		for _, l := range order() {
			if forms[l] == nil && invs[l] == nil {
				invs[l] = ex.templates(symOf(l), cur(st, l), k)
			}
		}
		// 3. verification of the candidates
		bad := false
		s := mk(k, true)
		s0 := s.clone()
		out = run(s)
		if out.normal == nil {
			break
		}
		next := out.normal
		for _, l := range order() {
			if f := forms[l]; f != nil {
				goal := eqLoc(cur(next, l), at(f, Add(k, Int(1))))
				ginit := eqLoc(cur(st, l), at(f, Int(0)))
				if !ex.proveInv(st.facts, ginit) || !ex.proveInv(next.facts, goal) {
					if trace > 0 {
						fmt.Printf("loop at %s: candidate for %s fails\n  form %s\n  next %s\n", ex.posStr(ex.pos), l, f, cur(next, l))
					}
					delete(forms, l)
					never[l] = true
					bad = true
					break
				}
			} else {
				if rs, ok := partial[l]; ok {
					n := cur(next, l)
					if !ex.proveInv(next.facts, eqLoc(n, keepRows(cur(st, l), n, rs))) {
						delete(partial, l)
						noPartial[l] = true
						bad = true
						break
					}
				}
				for _, iv := range invs[l] {
					if dropped[iv] {
						continue
					}
					sub := map[*Term]*Term{}
					for l2, s2 := range syms {
						if forms[l2] == nil && mods[l2] {
							sub[s2] = cur(next, l2)
						}
					}
					goal := Subst(at(iv, Add(k, Int(1))), sub)
					sub0 := map[*Term]*Term{}
					for l2, s2 := range syms {
						sub0[s2] = cur(st, l2)
					}
					g0 := Subst(at(iv, Int(0)), sub0)
					if !ex.proveInv(st.facts, g0) || !ex.proveInv(next.facts, goal) {
						dropped[iv] = true
						bad = true
					}
				}
			}
		}
		_ = s0
		if !bad {
			break
		}
		s = mk(k, true)
		out = run(s)
	}
	unquiet()
	for _, l := range order() {
		if forms[l] == nil && trace > 0 {
			fmt.Printf("loop at %s: %s is havocked\n", ex.posStr(ex.pos), l)
			if out.normal != nil {
				fmt.Printf("    next %s\n", cur(out.normal, l))
			}
		}
	}
	// 4. recorded run at an arbitrary iteration
	s := mk(k, true)
	nf := len(s.facts)
	if out.normal == nil && len(mods) == 0 {
		// the body never completes normally: at most one iteration
		s.facts = append(s.facts, Eq(k, Int(0)))
	}
	// facts established by the earlier iterations
	var carried, carried0 []*Term
	if out.normal != nil {
		for _, f := range out.normal.facts {
			if inFacts(s, f) || hintFact[f] || f == condT {
				continue
			}
			if hasSym(f) || fresh(f) {
				continue
			}
			if !freeOf(f)[k] {
				carried0 = append(carried0, f)
				continue
			}
			carried = append(carried, f)
		}
	}
	carry := func(s *State, n *Term) {
		for _, cu := range conds {
			j := freshBV(IntS)
			f := Lambda(j, Ite(at(cu.c, j), Int(1), Int(0)))
			used := false
			for l, fo := range forms {
				if fo.sort == IntS && !never[l] && occursLast(fo, f) {
					used = true
				}
			}
			if !used {
				continue
			}
			la := Last(f, n)
			s.facts = append(copyFacts(s.facts), Imp(Ge(n, Int(0)), Eq(at(cu.form, n), Ite(Ge(la, Int(0)), at(cu.g, la), cu.v0))))
		}
		if len(carried0) > 0 {
			s.facts = append(copyFacts(s.facts), Imp(Gt(n, Int(0)), And(carried0...)))
		}
		if len(carried) == 0 {
			return
		}
		j := freshBV(IntS)
		body := at(And(carried...), j)
		s.facts = append(copyFacts(s.facts), Forall([]*Term{j}, Imp(And(Ge(j, Int(0)), Lt(j, n)), body)))
	}
	carry(s, k)
	_ = nf
	res := run(s)
	final := norm(nil)
	final.join(res)
	ex.seq = maxSeq
	// 5. natural exit
	exit := func(K *Term, extra func(s *State)) *State {
		s := mk(K, false)
		s.assume(Ge(K, Int(0)))
		if extra != nil {
			extra(s)
		}
		carry(s, K)
		return s
	}
	if ls.K != nil {
		if out.normal == nil {
			s := st.clone()
			assumeSplit(s, Eq(ls.K, Int(0)))
			final.normal = s
			if s.dead {
				final.normal = nil
			}
			return final
		}
		final.normal = exit(ls.K, nil)
		return final
	}
	if condT == nil || condT == True {
		return final
	}
	if out.normal == nil {
		s := st.clone()
		c := ls.cond(s)
		assumeSplit(s, Not(c))
		if !s.dead {
			final.normal = s
		}
		return final
	}
	condAt := func(n *Term) *Term { return at(condT, n) }
	if a, step := linCond(condT, k); a != nil && !hasSym(condT) {
		n := Add(a, Int(1)) // k <= a  <=>  k < n
		if step == 1 {
			if !ex.quickTrue(st, Ge(n, Int(0))) {
				n = Ite(Ge(n, Int(0)), n, Int(0))
			}
			final.normal = exit(n, nil)
			return final
		}
		if step > 1 && ex.quickTrue(st, Ge(Add(a, Int(step)), Int(0))) {
			// k <= a/step
			final.normal = exit(IDiv(Add(a, Int(step)), Int(step)), nil)
			return final
		}
	}
	K := ex.fresh("K", IntS)
	K.nonneg = true
	final.normal = exit(K, func(s *State) {
		s.facts = append(copyFacts(s.facts), Not(condAt(K)))
		if !hasSym(condT) {
			s.assume(Or(Eq(K, Int(0)), condAt(Sub(K, Int(1)))))
		}
	})
	return final
}

func seqOf(v *Term) int {
	n := v.name
	i := strings.LastIndexByte(n, '!')
	if i < 0 {
		return 0
	}
	x := 0
	for _, c := range n[i+1:] {
		if c < '0' || c > '9' {
			return 0
		}
		x = x*10 + int(c-'0')
	}
	return x
}

// linCond: cond is  a - step*k >= 0 .
func linCond(c, k *Term) (*Term, int64) {
	if c.op != OGe0 {
		return nil, 0
	}
	co, rest, ok := linIn(c.args[0], k)
	if !ok {
		return nil, 0
	}
	n, isI := co.isInt()
	if !isI || n >= 0 {
		return nil, 0
	}
	return rest, -n
}

// linIn writes p = co*x + rest with co, rest free of x.
func linIn(p, x *Term) (co, rest *Term, ok bool) {
	var cm, rm []Mono
	for _, m := range polyOf(p) {
		n := 0
		var others []*Term
		for _, a := range m.A {
			if a == x {
				n++
			} else {
				if occurs(x, a) {
					return nil, nil, false
				}
				others = append(others, a)
			}
		}
		switch n {
		case 0:
			rm = append(rm, m)
		case 1:
			cm = append(cm, Mono{m.C, others})
		default:
			return nil, nil, false
		}
	}
	return mkPoly(p.sort, cm), mkPoly(p.sort, rm), true
}

func eqLoc(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort.K != 'A' {
		return Eq(a, b)
	}
	// peel equal stores
	if a.op == OStore && b.op == OStore && a.args[1] == b.args[1] && a.args[0] == b.args[0] {
		return eqLoc(a.args[2], b.args[2])
	}
	// the same positions of the same array are stored to
	var goals []*Term
	x, y := a, b
	for x != y && x.op == OStore && y.op == OStore && x.args[1] == y.args[1] {
		goals = append(goals, eqLoc(x.args[2], y.args[2]))
		x, y = x.args[0], y.args[0]
	}
	if x == y {
		return And(goals...)
	}
	bv := freshBV(IntS)
	return Forall([]*Term{bv}, eqLocB(Select(a, bv), Select(b, bv)))
}

func eqLocB(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort.K == 'A' {
		bv := freshBV(IntS)
		return Forall([]*Term{bv}, eqLocB(Select(a, bv), Select(b, bv)))
	}
	return Eq(a, b)
}

func (ex *Exec) proveInv(facts []*Term, goal *Term) bool {
	if goal == True {
		return true
	}
	if goal == False {
		return false
	}
	if goal.op == OAnd {
		for _, g := range goal.args {
			if !ex.proveInv(facts, g) {
				return false
			}
		}
		return true
	}
	r := Prove(facts, goal, 3000, false)
	if trace > 2 && !r.OK {
		if b, err := os.ReadFile("/tmp/gocv-ground.txt"); err == nil {
			fmt.Println("GROUND", r.Status, string(b))
		}
		fmt.Printf("  inv fails: %s\n", goal)
	}
	return r.OK
}

func (ex *Exec) templates(v, v0, k *Term) []*Term {
	if v.sort == IntS {
		r := []*Term{Ge(v, v0), Le(v, v0), Ge(v, Int(0)), Le(v, Add(v0, k)), Ge(v, Sub(v0, k)), Eq(v, v0)}
		return r
	}
	return nil
}

// ---------- guessing closed forms ----------

func (ex *Exec) guess(t, v, v0, k *Term, bad func(*Term) bool) *Term {
	switch v.sort.K {
	case 'B':
		return guessBool(t, v, v0, k, bad)
	case 'I', 'R':
		return guessScalar(t, v, v0, k, bad)
	}
	r := ex.guessArray(t, v, v0, k, bad)
	if r == nil && trace > 1 {
		fmt.Printf("no guess for %s := %s\n", v, t)
	}
	return r
}

func guessBool(t, v, v0, k *Term, bad func(*Term) bool) *Term {
	if !occurs(v, t) {
		if bad(t) {
			return nil
		}
		return Ite(Gt(k, Int(0)), subst1(t, k, Sub(k, Int(1))), v0)
	}
	quantF := func(c *Term, all bool) *Term {
		j := freshBV(IntS)
		rng := And(Ge(j, Int(0)), Lt(j, k))
		if all {
			return Forall([]*Term{j}, Imp(rng, subst1(c, k, j)))
		}
		return Exists([]*Term{j}, And(rng, subst1(c, k, j)))
	}
	tt, tf := subst1(t, v, True), subst1(t, v, False)
	if bad(tt) || bad(tf) {
		return nil
	}
	if tt == True {
		return Or(v0, quantF(tf, false))
	}
	if tf == False {
		return And(v0, quantF(tt, true))
	}
	return nil
}

// guessTensor: v is replaced by a new operator (or matrix) computed from its
// own value, element by element.
func guessTensor(t, v, v0, k *Term, bad func(*Term) bool) *Term {
	d := t
	if isOpRef(t) {
		d = t.args[len(t.args)-1]
	}
	if !isValRef(d) || v.sort != IntS {
		return nil
	}
	n := len(d.args)
	vv := tval(v)
	if !isOpRef(t) {
		vv = v
	}
	isNil := Eq(v, Int(0))
	first := subst1(subst1(t, v, v0), k, Int(0))
	fd := first
	if isOpRef(first) {
		fd = first.args[len(first.args)-1]
	}
	if !isValRef(fd) || len(fd.args) != n {
		return nil
	}
	km1 := Sub(k, Int(1))
	v0v := v0
	if isOpRef(t) {
		v0v = tval(v0)
	}
	out := append([]*Term(nil), d.args...)
	for i := range out {
		switch {
		case i < n-4: // loop indices
			out[i] = subst1(out[i], k, km1)
		case i < n-1: // dimensions, precision
			if x := out[i]; !occurs(v, x) && !occurs(k, x) {
				break
			}
			// those of the initial value, or of the first iteration
			h := Var([]string{"H0.rows", "H0.cols", "H0.dtype"}[i-(n-4)], ArrS(IntS))
			if i < n-2 {
				h.attr = 'n'
			}
			if isCtor(v0v) {
				out[i] = fd.args[i]
			} else {
				out[i] = Ite(Eq(v0, Int(0)), fd.args[i], Select(h, v0v))
			}
			if bad(out[i]) {
				return nil
			}
		}
	}
	e := freshBV(IntS)
	body := Select(d.args[n-1], e)
	mem := func(r *Term) *Term {
		m := Var("H0.mem.R", ArrS(ArrS(RealS)))
		return Select(Select(m, ctor("arr.mat.Dense.data.arr", r)), e)
	}
	cv := Var(v.name+"@elem", RealS)
	c0 := Ite(Eq(v0, Int(0)), RealN(0), mem(v0v))
	body = Subst(body, map[*Term]*Term{mem(vv): cv})
	body = Subst(body, map[*Term]*Term{Ite(isNil, RealN(0), cv): cv})
	if occurs(v, body) {
		// a first iteration on nil
		body = Subst(body, map[*Term]*Term{isNil: And(Eq(v0, Int(0)), Le(k, Int(0)))})
	}
	var f *Term
	if !occurs(v, body) {
		f = guessScalar(body, cv, c0, k, func(x *Term) bool { return bad(x) || occurs(cv, x) })
	} else {
		// from the second iteration on v is a value object with elements A
		A := Var(v.name+"@elems", ArrS(RealS))
		out[n-1] = A
		pv := ctor(d.name[2:], out...)
		if isOpRef(t) {
			as := append([]*Term(nil), t.args...)
			for i := range as[:len(as)-1] {
				as[i] = subst1(as[i], k, km1)
			}
			as[len(as)-1] = pv
			pv = ctor(t.name[2:], as...)
		}
		t2 := subst1(t, v, pv)
		if isOpRef(t2) {
			t2 = t2.args[len(t2.args)-1]
		}
		if !isValRef(t2) || len(t2.args) != n {
			return nil
		}
		body = subst1(Select(t2.args[n-1], e), Select(A, e), cv)
		if occurs(A, body) {
			return nil
		}
		body = subst1(body, k, Add(k, Int(1)))
		c1 := Select(fd.args[n-1], e)
		if f = guessScalar(body, cv, c1, k, func(x *Term) bool { return bad(x) || occurs(cv, x) }); f != nil {
			f = subst1(f, k, km1)
		}
	}
	if f == nil {
		return nil
	}
	out[n-1] = Lambda(e, f)
	res := ctor(d.name[2:], out...)
	if isOpRef(t) {
		as := append([]*Term(nil), t.args...)
		for i := range as[:len(as)-1] {
			as[i] = subst1(as[i], k, km1)
		}
		as[len(as)-1] = res
		res = ctor(t.name[2:], as...)
	}
	return Ite(Gt(k, Int(0)), res, v0)
}

func diffV(t, v *Term) *Term {
	if t.op == OIte && !occurs(v, t.args[0]) {
		return Ite(t.args[0], diffV(t.args[1], v), diffV(t.args[2], v))
	}
	return Sub(t, v)
}

func guessScalar(t, v, v0, k *Term, bad func(*Term) bool) *Term {
	if t == v {
		return v0
	}
	prev := func(x *Term) *Term { return subst1(x, k, Sub(k, Int(1))) }
	if !occurs(v, t) {
		if bad(t) {
			return nil
		}
		// a value that also fits at k=0 needs no case split
		p := prev(t)
		if subst1(p, k, Int(0)) == v0 {
			return p
		}
		return Ite(Gt(k, Int(0)), p, v0)
	}
	if isOpRef(t) || isValRef(t) {
		return guessTensor(t, v, v0, k, bad)
	}
	if c := t; c.op == OIte && (isOpRef(c.args[1]) || isValRef(c.args[1])) && c.args[2] == v {
		// a cell that every iteration updates, or none
		if g := c.args[0]; !occurs(v, g) && !occurs(k, g) && !bad(g) {
			if f := guessTensor(c.args[1], v, v0, k, bad); f != nil {
				return Ite(g, f, v0)
			}
			return nil
		}
	}
	d := diffV(t, v)
	if !occurs(v, d) && !bad(d) {
		if !occurs(k, d) {
			kk := k
			if v.sort == RealS {
				kk = ToReal(k)
			}
			if d.op == OIte {
				return Add(v0, Ite(d.args[0], Mul(d.args[1], kk), Mul(d.args[2], kk)))
			}
			return Add(v0, Mul(d, kk))
		}
		if v.sort == RealS {
			j := freshBV(IntS)
			return Add(v0, Sum(Lambda(j, subst1(d, k, j)), k))
		}
		if t.op == OIte {
			if f := guessWrap(t.args[0], t.args[1], t.args[2], v, v0, k, bad); f != nil {
				return f
			}
		}
		// integer increment linear in k
		if co, rest, ok := linIn(d, k); ok {
			return Add(v0, Mul(rest, k), Mul(co, IDiv(Mul(k, Sub(k, Int(1))), Int(2))))
		}
		if v.sort == IntS {
			j := freshBV(IntS)
			return Add(v0, Sum(Lambda(j, subst1(d, k, j)), k))
		}
		return nil
	}
	if t.op == OIte {
		c, A, B := t.args[0], t.args[1], t.args[2]
		// wrap-around counter: ite(v+1 = N, 0, v+1)
		if v.sort == IntS {
			if f := guessWrap(c, A, B, v, v0, k, bad); f != nil {
				return f
			}
		}
		var g *Term
		gIsA := false
		if B == v && !occurs(v, A) {
			g, gIsA = A, true
		} else if A == v && !occurs(v, B) {
			g = B
		}
		if g != nil && !bad(g) && v.sort == IntS && !occurs(v, c) && !bad(c) {
			cc := c
			if !gIsA {
				cc = Not(c)
			}
			j := freshBV(IntS)
			la := Last(Lambda(j, Ite(subst1(cc, k, j), Int(1), Int(0))), k)
			if v0 == Int(-1) && g == k {
				return la
			}
			return Ite(Ge(la, Int(0)), subst1(g, k, la), v0)
		}
		if g != nil && !bad(g) {
			// which way does the comparison go?  try both shapes
			pick := c
			if !gIsA {
				pick = Not(c)
			}
			if pick.op == OAnd {
				// conditions that no iteration changes select the cell
				var fixed, rest []*Term
				for _, a := range pick.args {
					if occurs(v, a) || occurs(k, a) {
						rest = append(rest, a)
					} else {
						fixed = append(fixed, a)
					}
				}
				if len(fixed) > 0 && len(rest) > 0 && !bad(And(fixed...)) {
					if f := guessScalar(Ite(And(rest...), g, v), v, v0, k, bad); f != nil {
						return Ite(And(fixed...), f, v0)
					}
				}
			}
			for _, sgn := range []int64{1, -1} {
				gs, vs := Scale(g, ratI(sgn)), Scale(v, ratI(sgn))
				first := Eq(k, Int(0))
				if v.sort == RealS && (pick == Or(first, Gt(gs, vs)) || pick == Or(first, Ge(gs, vs))) {
					// the first iteration always takes its value
					j := freshBV(IntS)
					return Ite(Gt(k, Int(0)), Scale(MaxF(Lambda(j, subst1(gs, k, j)), k), ratI(sgn)), v0)
				}
				if pick == Gt(gs, vs) || pick == Ge(gs, vs) {
					if v.sort != RealS {
						return nil
					}
					j := freshBV(IntS)
					m := MaxF(Lambda(j, subst1(gs, k, j)), k)
					s0 := Scale(v0, ratI(sgn))
					if subst1(gs, k, Int(0)) == s0 {
						return Ite(Gt(k, Int(0)), Scale(m, ratI(sgn)), v0)
					}
					mx := Ite(Gt(m, s0), m, s0)
					return Ite(Gt(k, Int(0)), Scale(mx, ratI(sgn)), v0)
				}
			}
		}
	}
	return nil
}

// guessWrap recognises counters that wrap: v' = ite(v+a >= M, v+a-b, v+a).
func guessWrap(c, A, B, v, v0, k *Term, bad func(*Term) bool) *Term {
	if occurs(v, Sub(A, v)) {
		// reset to a constant: ite(v+1=N, r, v+1)
		for _, o := range [][2]*Term{{A, B}, {B, A}} {
			if !occurs(v, o[0]) && Sub(o[1], v) == Int(1) && o[0] == Int(0) && v0 == Int(0) {
				cc := c
				if o[0] == B {
					cc = Not(c)
				}
				// solve the condition for v
				if cc.op == OEq0 {
					if co, rest, ok := linIn(cc.args[0], v); ok {
						n, isI := co.isInt()
						if isI && (n == 1 || n == -1) {
							N := Add(Scale(rest, ratI(-n)), Int(1))
							if !bad(N) && !occurs(k, N) {
								return IMod(k, N)
							}
						}
					}
				}
				if cc.op == OGe0 {
					if co, rest, ok := linIn(cc.args[0], v); ok && co == Int(1) {
						N := Add(Neg(rest), Int(1))
						if !bad(N) && !occurs(k, N) {
							return IMod(k, N)
						}
					}
				}
			}
		}
		return nil
	}
	// both branches are v plus something
	dA, dB := Sub(A, v), Sub(B, v)
	if occurs(v, dB) || bad(dA) || bad(dB) || occurs(k, dA) || occurs(k, dB) {
		return nil
	}
	// condition depends on v: index += a; if index >= size { index -= size-1 }
	if !occurs(v, c) {
		// companion of a wrapping counter: count of wraps
		if cc := c; cc.op == OEq0 {
			for _, at := range atomsOf(cc.args[0]) {
				if at.op == OApp && at.name == "mod" && at.args[0] == k {
					if dA == Int(1) && dB == Int(0) && v0 == Int(0) {
						return IDiv(k, at.args[1])
					}
					if dB == Int(1) && dA == Int(0) && v0 == Int(0) {
						return IDiv(k, at.args[1])
					}
				}
			}
		}
		return nil
	}
	if c.op != OGe0 || v0 != Int(0) {
		return nil
	}
	// c: v + a - M >= 0 -> step dA (wrap), else step dB
	step, wrap := dB, dA
	p := c.args[0]
	co, rest, ok := linIn(p, v)
	if !ok {
		return nil
	}
	if co == Int(-1) {
		// negated orientation: c true means below the limit
		step, wrap = dA, dB
		p = Neg(Add(p, Int(1)))
		co, rest, ok = linIn(p, v)
	}
	if !ok || co != Int(1) {
		return nil
	}
	M := Sub(step, rest)
	// number of steps per round q with q*step = M
	q := divPoly(M, step)
	if q == nil || bad(q) {
		return nil
	}
	_ = wrap
	// total advance per round: q*step + (wrap-step) must be the offset increment
	off := Sub(Add(Mul(q, step), wrap), step)
	return Add(Mul(IMod(k, q), step), Mul(IDiv(k, q), off))
}

func atomsOf(p *Term) []*Term {
	var r []*Term
	for _, m := range polyOf(p) {
		r = append(r, m.A...)
	}
	return r
}

// divPoly divides p by the single atom or constant d exactly.
func divPoly(p, d *Term) *Term {
	dm := polyOf(d)
	if len(dm) != 1 {
		return nil
	}
	var out []Mono
	for _, m := range polyOf(p) {
		rest := append([]*Term(nil), m.A...)
		for _, a := range dm[0].A {
			found := false
			for i, b := range rest {
				if a == b {
					rest = append(rest[:i:i], rest[i+1:]...)
					found = true
					break
				}
			}
			if !found {
				return nil
			}
		}
		c := ratI(0)
		c.Quo(m.C, dm[0].C)
		if p.sort == IntS && !c.IsInt() {
			return nil
		}
		out = append(out, Mono{c, rest})
	}
	return mkPoly(p.sort, out)
}

// keepRows is a with the rows rs taken from b.
func keepRows(a, b *Term, rs []*Term) *Term {
	for _, r := range rs {
		a = Store(a, r, Select(b, r))
	}
	return a
}

// storeRoots lists the indices written through explicit stores on v, or on its
// initial value v0, in t; false when there are other writes, an index is bad or
// two may coincide.
func storeRoots(t, v, v0 *Term, bad func(*Term) bool) ([]*Term, bool) {
	var roots []*Term
	ok := true
	for v0.op == OStore {
		v0 = v0.args[0]
	}
	var walk func(x *Term)
	walk = func(x *Term) {
		switch {
		case x == v || x == v0:
		case x.op == OStore:
			walk(x.args[0])
			for _, r := range roots {
				if r == x.args[1] {
					return
				}
			}
			roots = append(roots, x.args[1])
		case x.op == OIte:
			walk(x.args[1])
			walk(x.args[2])
		default:
			ok = false
		}
	}
	walk(t)
	for i, r := range roots {
		if !ok || bad(r) {
			return nil, false
		}
		for j := i + 1; j < len(roots); j++ {
			if Eq(r, roots[j]) != False {
				return nil, false
			}
		}
	}
	return roots, ok
}

// guessArray finds a closed form for a heap map.
func (ex *Exec) guessArray(t, v, v0, k *Term, bad func(*Term) bool) *Term {
	if t == v {
		return v0
	}
	if !occurs(v, t) {
		if bad(t) {
			return nil
		}
		return Ite(Gt(k, Int(0)), subst1(t, k, Sub(k, Int(1))), v0)
	}
	two := v.sort.Elem.K == 'A'
	roots, okRoots := storeRoots(t, v, v0, func(r *Term) bool { return occurs(k, r) || bad(r) || occurs(v, r) })
	if okRoots {
		res := v0
		for _, r := range roots {
			if !two {
				cv := Var(v.name+"@cell", v.sort.Elem)
				cell := replaceCell(Select(t, r), v, []*Term{r}, cv)
				if occurs(v, cell) {
					cell = Subst(cell, map[*Term]*Term{v: v0})
				}
				f := guessCell(cell, cv, Select(v0, r), k, nil, bad)
				if f == nil {
					return nil
				}
				res = Store(res, r, f)
				continue
			}
			u := freshBV(IntS)
			f := guessRow(t, v, v0, k, []*Term{r, u}, []*Term{u}, bad)
			if f == nil {
				return nil
			}
			res = Store(res, r, Lambda(u, f))
		}
		return res
	}
	q := freshBV(IntS)
	if !two {
		f := guessRow(t, v, v0, k, []*Term{q}, []*Term{q}, bad)
		if f == nil {
			return nil
		}
		return Lambda(q, f)
	}
	u := freshBV(IntS)
	f := guessRow(t, v, v0, k, []*Term{q, u}, []*Term{u, q}, bad)
	if f == nil {
		return nil
	}
	return Lambda(q, Lambda(u, f))
}

func hasApp(t *Term, name string) bool {
	hit := false
	visit([]*Term{t}, func(x *Term) { hit = hit || x.op == OApp && x.name == name })
	return hit
}

func selN(a *Term, idx []*Term) *Term {
	for _, i := range idx {
		a = Select(a, i)
	}
	return a
}

// replaceCell replaces reads of v at idx by cv.
func replaceCell(t, v *Term, idx []*Term, cv *Term) *Term {
	return Subst(t, map[*Term]*Term{selN(v, idx): cv})
}

func guessRow(t, v, v0, k *Term, idx, us []*Term, bad func(*Term) bool) *Term {
	cell := selN(t, idx)
	es := cell.sort
	cv := Var(v.name+"@cell", es)
	if es == IntS && v.attr == 'N' {
		cv.nonneg = true
	}
	cell = sameCell(cell, v, idx[0])
	cell = replaceCell(cell, v, idx, cv)
	if occurs(v, cell) {
		// reads of other cells: optimistically the initial content
		cell = Subst(cell, map[*Term]*Term{v: v0})
	}
	return guessCell(cell, cv, selN(v0, idx), k, us, bad)
}

// sameCell rewrites reads v[a] to v[q] where a = q is the condition.
func sameCell(t, v, q *Term) *Term {
	if t.op != OIte || !occurs(v, t) {
		return t
	}
	a, b := t.args[1], t.args[2]
	if c := t.args[0]; c.op == OEq0 {
		if co, rest, ok := linIn(c.args[0], q); ok && (co == Int(1) || co == Int(-1)) {
			at := rest
			if co == Int(1) {
				at = Neg(rest)
			}
			if at != q {
				a = Subst(a, map[*Term]*Term{Select(v, at): Select(v, q)})
			}
		}
	}
	return Ite(t.args[0], sameCell(a, v, q), sameCell(b, v, q))
}

type leafW struct {
	guard []*Term
	val   *Term
}

func leavesOf(t *Term, guard []*Term, out *[]leafW) {
	if t.op == OIte {
		leavesOf(t.args[1], append(append([]*Term(nil), guard...), t.args[0]), out)
		leavesOf(t.args[2], append(append([]*Term(nil), guard...), Not(t.args[0])), out)
		return
	}
	*out = append(*out, leafW{guard, t})
}

// guessCell: closed form of one cell, us are the free coordinates.
func guessCell(cell, cv, c0, k *Term, us []*Term, bad func(*Term) bool) *Term {
	if bad(cell) && !onlyVar(cell, cv, bad) {
		return nil
	}
	var lw []leafW
	leavesOf(cell, nil, &lw)
	if len(lw) <= 16 && len(us) > 0 {
		ok := true
		type hit struct{ cond, val *Term }
		var hits []hit
		for _, l := range lw {
			if l.val == cv {
				continue
			}
			var conj []*Term
			for _, g := range l.guard {
				if g.op == OAnd {
					conj = append(conj, g.args...)
				} else {
					conj = append(conj, g)
				}
			}
			kap, conds := solveK(conj, k, us)
			if kap == nil {
				ok = false
				break
			}
			if occurs(cv, l.val) && hasApp(kap, "LAST") {
				// several iterations may reach the cell, each adding to it
				ok = false
				break
			}
			for _, c := range conds {
				if occurs(cv, c) {
					ok = false
				}
			}
			cond := And(append([]*Term{Ge(kap, Int(0)), Lt(kap, k)}, conds...)...)
			val := subst1(subst1(l.val, k, kap), cv, c0)
			hits = append(hits, hit{cond, val})
		}
		if ok && len(hits) > 0 {
			res := c0
			for i := len(hits) - 1; i >= 0; i-- {
				res = Ite(hits[i].cond, hits[i].val, res)
			}
			return res
		}
	}
	if cell.sort == BoolS {
		tt, tf := subst1(cell, cv, True), subst1(cell, cv, False)
		if len(us) > 0 && !bad(tt) && !bad(tf) && (tf == False || tt == True) {
			// cells set to false (true) by the iterations that satisfy a guard
			w := tf
			if tf == False {
				w = Not(tt)
			}
			ds := []*Term{w}
			if w.op == OOr {
				ds = w.args
			}
			var hit []*Term
			for _, d := range ds {
				cj := []*Term{d}
				if d.op == OAnd {
					cj = d.args
				}
				kap, conds := solveK(cj, k, us)
				if kap == nil {
					hit = nil
					break
				}
				hit = append(hit, And(append([]*Term{Ge(kap, Int(0)), Lt(kap, k)}, conds...)...))
			}
			if len(hit) > 0 {
				if tf == False {
					return And(c0, Not(Or(hit...)))
				}
				return Or(c0, Or(hit...))
			}
		}
		return guessBool(cell, cv, c0, k, bad)
	}
	return guessScalar(cell, cv, c0, k, bad)
}

func onlyVar(t, cv *Term, bad func(*Term) bool) bool {
	return !bad(subst1(t, cv, Num0(cv.sort)))
}

func Num0(s *Sort) *Term {
	if s == BoolS {
		return False
	}
	return Num(s, ratI(0))
}

// solveK finds the unique iteration k that satisfies the guard, as a function
// of the coordinates us; conds is the guard with that k substituted.
func solveK(conj []*Term, k *Term, us []*Term) (*Term, []*Term) {
	hasU := func(t *Term) bool {
		for _, u := range us {
			if occurs(u, t) {
				return true
			}
		}
		return false
	}
	substAll := func(kap *Term, skip int, extra ...*Term) []*Term {
		var out []*Term
		for i, c := range conj {
			if i == skip {
				continue
			}
			out = append(out, subst1(c, k, kap))
		}
		return append(out, extra...)
	}
	// equality with a constructor over k
	for i, c := range conj {
		if c.op != OEq0 {
			continue
		}
		ms := polyOf(c.args[0])
		if len(ms) == 2 && len(ms[0].A) == 1 && len(ms[1].A) == 1 {
			a, b := ms[0].A[0], ms[1].A[0]
			if !isCtor(a) {
				a, b = b, a
			}
			if isCtor(a) && !isCtor(b) && !occurs(k, b) {
				name := a.name[2:]
				ids := a.args[:idArgs(a)]
				for n, arg := range ids {
					if arg == k {
						kap := CtorArg(name, n, b)
						ex := []*Term{IsCtor(name, b)}
						for m, ar := range ids {
							if m != n {
								ex = append(ex, Eq(CtorArg(name, m, b), ar))
							}
						}
						return kap, substAll(kap, i, ex...)
					}
				}
			}
		}
	}
	// linear equality
	for _, c := range conj {
		if c.op != OEq0 || !occurs(k, c) || !hasU(c) {
			continue
		}
		co, rest, ok := linIn(c.args[0], k)
		if !ok || hasU(co) {
			continue
		}
		n, isI := co.isInt()
		var kap *Term
		switch {
		case isI && n == 1:
			kap = Neg(rest)
		case isI && n == -1:
			kap = rest
		case isI && n < 0:
			kap = IDiv(rest, Int(-n))
		case isI && n > 0:
			kap = IDiv(Neg(rest), Int(n))
		default:
			// symbolic stride: positive when the monomials are non-negative
			if likelyPos(co) {
				kap = IDiv(Neg(rest), co)
			} else if likelyPos(Neg(co)) {
				kap = IDiv(rest, Neg(co))
			} else {
				continue
			}
		}
		return kap, substAll(kap, -1)
	}
	// transposed order: div(k,C) + R*mod(k,C) = w
	for _, c := range conj {
		if c.op != OEq0 || !occurs(k, c) || !hasU(c) {
			continue
		}
		var C *Term
		for _, a := range atomsOf(c.args[0]) {
			if a.op == OApp && (a.name == "div" || a.name == "mod") && a.args[0] == k && !occurs(k, a.args[1]) {
				C = a.args[1]
			}
		}
		if C == nil {
			continue
		}
		D, M := IDiv(k, C), IMod(k, C)
		c1, r1, ok := linIn(c.args[0], D)
		if !ok {
			continue
		}
		p := c.args[0]
		if c1 == Int(-1) {
			p = Neg(p)
		} else if c1 != Int(1) {
			continue
		}
		_, r1, _ = linIn(p, D)
		R, rest, ok := linIn(r1, M)
		if !ok || occurs(k, R) || occurs(k, rest) || hasU(R) {
			continue
		}
		w := Neg(rest)
		kap := Add(Mul(C, IMod(w, R)), IDiv(w, R))
		return kap, substAll(kap, -1)
	}
	// blocks of varying sizes: u - a - (f[0]+...+f[k-1]) >= 0
	for _, c := range conj {
		if c.op != OGe0 || !occurs(k, c) || !hasU(c) {
			continue
		}
		for _, a := range atomsOf(c.args[0]) {
			if a.op != OApp || a.name != "SUM" || a.args[1] != k || occurs(k, a.args[0]) || hasU(a) {
				continue
			}
			co, rest, ok := linIn(c.args[0], a)
			if !ok || occurs(k, rest) || co != Int(-1) {
				continue
			}
			kap := Blk(a.args[0], rest)
			return kap, substAll(kap, -1)
		}
	}
	// block bounds: u - a - s*k >= 0 is the lower bound of the block
	for _, c := range conj {
		if c.op != OGe0 || !occurs(k, c) || !hasU(c) {
			continue
		}
		co, rest, ok := linIn(c.args[0], k)
		if !ok || hasU(co) {
			continue
		}
		if n, isI := co.isInt(); isI {
			if n >= 0 {
				continue
			}
			if n == -1 {
				return rest, substAll(rest, -1)
			}
			kap := IDiv(rest, Int(-n))
			return kap, substAll(kap, -1)
		}
		// the lower bound is the one that grows with the coordinate
		up := false
		for _, u := range us {
			if cu, _, ok := linIn(rest, u); ok {
				if n, isI := cu.isInt(); isI && n > 0 {
					up = true
				}
			}
		}
		if likelyPos(Neg(co)) || up && !likelyPos(co) {
			kap := IDiv(rest, Neg(co))
			return kap, substAll(kap, -1)
		}
	}
	return nil, nil
}

// likelyPos: all coefficients positive (a guess; the candidate is verified).
func likelyPos(p *Term) bool {
	for _, m := range polyOf(p) {
		if m.C.Sign() < 0 {
			return false
		}
	}
	return true
}

// occursLast: t contains LAST over the guard f.
func occursLast(t, f *Term) bool {
	if t.op == OApp && t.name == "LAST" && t.args[0] == f {
		return true
	}
	for _, a := range t.args {
		if occursLast(a, f) {
			return true
		}
	}
	for _, m := range t.mons {
		for _, a := range m.A {
			if occursLast(a, f) {
				return true
			}
		}
	}
	return false
}
