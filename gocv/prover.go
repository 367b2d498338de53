package main

// Discharging one obligation: facts |- goal.
//
// The negated goal and the facts are put in clause form, ground equalities and
// literals are propagated, universally quantified facts are instantiated at the
// array indices that occur in the query, and ground lemmas are added for the
// operations that the solver sees as uninterpreted (non-linear products,
// division, exp, log, sums, ...).  What remains is quantifier-free and goes to
// z3 and then cvc5.

import (
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type ProofResult struct {
	OK      bool
	Backend string
	Status  string // unsat / sat / unknown
	Model   map[string]string
	SMT     string
	Wall    time.Duration
}

type quant struct {
	bvs  []*Term
	body *Term
	done map[string]bool
}

type query struct {
	itBase  map[*Term]bool
	itRound int
	rounds  int
	early   bool
	backend string
	ground  []*Term
	seen    map[int]bool
	quants  []*quant
	qseen   map[int]bool
	sk      int
	depth   int
	extra   map[int]bool // lemma dedupe by term
	// gen counts the unit literals; unitGen tells which clauses have seen them
	gen     int
	unitGen map[*Term]int
}

var skSeq int64

func newQuery() *query {
	return &query{seen: map[int]bool{}, qseen: map[int]bool{}, extra: map[int]bool{}, gen: 1, unitGen: map[*Term]int{}}
}

func hasQuant(t *Term) bool {
	switch t.op {
	case OForall, OExists:
		return true
	case OAnd, OOr, ONot, OIff, OIte:
		for _, a := range t.args {
			if hasQuant(a) {
				return true
			}
		}
	}
	return false
}

// add asserts formula t (true), with universally bound variables univ.
func (q *query) add(t *Term, univ []*Term) {
	if !hasQuant(t) {
		q.addClause(t, univ)
		return
	}
	switch t.op {
	case OAnd:
		for _, a := range t.args {
			q.add(a, univ)
		}
		return
	case OForall:
		u := freshBV(t.args[0].sort)
		q.add(subst1(t.args[1], t.args[0], u), append(append([]*Term(nil), univ...), u))
		return
	case OExists:
		q.add(subst1(t.args[1], t.args[0], q.skolem(t.args[0].sort, univ)), univ)
		return
	case OOr:
		var lit []*Term
		var quants []*Term
		for _, a := range t.args {
			if hasQuant(a) {
				quants = append(quants, a)
			} else {
				lit = append(lit, a)
			}
		}
		// distribute over the first quantified disjunct
		first := quants[0]
		rest := append(append([]*Term(nil), lit...), quants[1:]...)
		switch first.op {
		case OAnd:
			for _, a := range first.args {
				q.add(Or(append([]*Term{a}, rest...)...), univ)
			}
		case OForall:
			u := freshBV(first.args[0].sort)
			q.add(Or(append([]*Term{subst1(first.args[1], first.args[0], u)}, rest...)...), append(append([]*Term(nil), univ...), u))
		case OExists:
			s := q.skolem(first.args[0].sort, univ)
			q.add(Or(append([]*Term{subst1(first.args[1], first.args[0], s)}, rest...)...), univ)
		default:
			q.add(Or(append([]*Term{expandQ(first)}, rest...)...), univ)
		}
		return
	case ONot, OIff, OIte:
		q.add(expandQ(t), univ)
		return
	}
	panic("add: " + t.String())
}

// expandQ eliminates one level of not/iff/ite above a quantifier.
func expandQ(t *Term) *Term {
	switch t.op {
	case ONot:
		a := t.args[0]
		switch a.op {
		case OForall:
			return Exists1(a.args[0], Not(a.args[1]))
		case OExists:
			return Forall1(a.args[0], Not(a.args[1]))
		case OIff:
			return And(Or(a.args[0], a.args[1]), Or(Not(a.args[0]), Not(a.args[1])))
		case OIte:
			return And(Imp(a.args[0], Not(a.args[1])), Or(a.args[0], Not(a.args[2])))
		}
		return Not(a)
	case OIff:
		return And(Imp(t.args[0], t.args[1]), Imp(t.args[1], t.args[0]))
	case OIte:
		return And(Imp(t.args[0], t.args[1]), Or(t.args[0], t.args[2]))
	}
	panic("expandQ " + t.String())
}

func Forall1(b, body *Term) *Term {
	u := freshBV(b.sort)
	return mkQuant(OForall, []*Term{u}, subst1(body, b, u))
}
func Exists1(b, body *Term) *Term {
	u := freshBV(b.sort)
	return mkQuant(OExists, []*Term{u}, subst1(body, b, u))
}

func (q *query) skolem(s *Sort, univ []*Term) *Term {
	n := atomic.AddInt64(&skSeq, 1)
	if len(univ) == 0 {
		return Var(fmt.Sprintf("sk!%d", n), s)
	}
	return App(fmt.Sprintf("skf!%d", n), s, univ...)
}

func (q *query) addClause(t *Term, univ []*Term) {
	if t.op == OAnd {
		for _, a := range t.args {
			q.addClause(a, univ)
		}
		return
	}
	if t == True {
		return
	}
	if hasQuant(t) {
		// a quantifier that a substitution brought in
		q.add(t, univ)
		return
	}
	var bv []*Term
	fv := freeOf(t)
	for _, u := range univ {
		if fv[u] {
			bv = append(bv, u)
		}
	}
	if len(bv) == 0 {
		if !q.seen[t.id] {
			q.seen[t.id] = true
			q.ground = append(q.ground, t)
		}
		return
	}
	if !q.qseen[t.id] {
		q.qseen[t.id] = true
		q.quants = append(q.quants, &quant{bvs: bv, body: t, done: map[string]bool{}})
	}
}

// isAtomEq recognises p=0 as "atom = rest" and returns the best orientation.
func solveEq(t *Term) (atom, rhs *Term) {
	if t.op != OEq0 {
		return nil, nil
	}
	p := t.args[0]
	ms := polyOf(p)
	best := -1
	score := func(a *Term) int {
		// prefer eliminating plain variables with high ids, then other atoms
		switch a.op {
		case OVar:
			return 3
		case OSelect:
			return 2
		case OApp:
			if a.name == "to_real" {
				return 0
			}
			return 1
		case OIte:
			return 0
		}
		return 1
	}
	bs := -1
	for i, m := range ms {
		if len(m.A) != 1 {
			continue
		}
		if p.sort == IntS && m.C.Cmp(ratI(1)) != 0 && m.C.Cmp(ratI(-1)) != 0 {
			continue
		}
		a := m.A[0]
		// atom must not occur elsewhere
		occ := false
		for j, m2 := range ms {
			if j == i {
				continue
			}
			for _, b := range m2.A {
				if containsTerm(b, a) {
					occ = true
				}
			}
		}
		if occ {
			continue
		}
		if s := score(a)*1000000 + a.id%1000000; s > bs {
			bs = s
			best = i
		}
	}
	if best < 0 {
		return nil, nil
	}
	m := ms[best]
	var rest []Mono
	inv := new(big.Rat).Inv(m.C)
	for j, m2 := range ms {
		if j != best {
			rest = append(rest, Mono{new(big.Rat).Neg(new(big.Rat).Mul(m2.C, inv)), m2.A})
		}
	}
	return m.A[0], mkPoly(p.sort, rest)
}

func containsTerm(t, x *Term) bool {
	if t == x {
		return true
	}
	if x.op == OVar || x.op == OBVar {
		return occurs(x, t)
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		for _, m := range t.mons {
			for _, a := range m.A {
				if rec(a) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

// propagate performs ground equality and literal propagation; returns false if
// a contradiction was found.
func (q *query) propagate() bool {
	for round := 0; round < 40; round++ {
		q.rounds++
		m := map[*Term]*Term{}
		var units []*Term
		lower := lowerBounds{}
		used := map[*Term]bool{}
		var eqAtom *Term
		// the equations are solved one after the other; all are substituted at once
		var es *subster
		for _, g := range q.ground {
			if g == False {
				return false
			}
			if q.extra[-g.id] { // already used as a rewrite
				continue
			}
			switch g.op {
			case OOr, OAnd:
				continue
			}
			h := g
			if es != nil {
				h = es.do(g)
			}
			if a, r := solveEq(h); a != nil {
				eqAtom = a
				if es != nil {
					one := &subster{m: map[*Term]*Term{a: r}, memo: map[*Term]*Term{}}
					for k, v := range m {
						m[k] = one.do(v)
					}
				}
				m[a] = r
				es = &subster{m: m, memo: map[*Term]*Term{}}
				q.extra[-g.id] = true
				used[g] = true
			}
		}
		if eqAtom != nil {
		} else {
			// unit literals
			fresh := false
			for _, g := range q.ground {
				switch g.op {
				case OOr, OAnd, OIte:
					if q.unitGen[g] != q.gen {
						fresh = true
					}
					continue
				case OEq0:
					if q.extra[-g.id] {
						continue
					}
				}
				if !q.extra[1<<40|g.id] {
					fresh = true
					q.gen++
				}
				units = append(units, g)
			}
			if !fresh {
				return true
			}
			for _, g := range units {
				q.extra[1<<40|g.id] = true
				if g.op == ONot {
					m[g.args[0]] = False
				} else {
					m[g] = True
					if n := Not(g); n.op != ONot {
						m[n] = False
					}
					// weaker forms: p>=0 follows from p>0 or p=0
					if g.op == OGt0 {
						m[ge0(g.args[0])] = True
						m[eq0(g.args[0])] = False
						if x := ge0(Neg(g.args[0])); x != True && x != False {
							m[x] = False
						}
					}
					if g.op == OGe0 || g.op == OGt0 {
						lower.note(g.args[0])
					}
				}
				used[g] = true
			}
			delete(m, True)
			delete(m, False)
			if len(m) == 0 {
				return true
			}
		}
		s := &subster{m: m, memo: map[*Term]*Term{}, lower: lower}
		old := q.ground
		q.ground = nil
		q.seen = map[int]bool{}
		for _, g := range old {
			if used[g] {
				if eqAtom == nil {
					// a literal may contain another one as a condition
					g = s.inside(g)
				}
				q.addClause(g, nil)
				continue
			}
			n := s.do(g)
			if eqAtom == nil {
				q.unitGen[n] = q.gen
			}
			q.addClause(n, nil)
		}
		oq := q.quants
		q.quants = nil
		q.qseen = map[int]bool{}
		for _, x := range oq {
			nb := s.do(x.body)
			if nb == x.body {
				q.quants = append(q.quants, x)
				q.qseen[nb.id] = true
			} else {
				q.addClause(nb, x.bvs)
			}
		}
		for _, g := range q.ground {
			if g == False {
				return false
			}
		}
	}
	return true
}

// inside rewrites the conditions below a literal, not the literal itself.
func (s *subster) inside(g *Term) *Term {
	if g.op == ONot {
		return Not(s.inside(g.args[0]))
	}
	switch g.op {
	case OEq0, OGe0, OGt0:
		return rebuild(g, s.do)
	}
	return g
}

// visit all subterms of ground terms, not entering binders.
func visit(ts []*Term, f func(t *Term)) { visit0(ts, f, false) }

// visitAll enters binders, too.
func visitAll(ts []*Term, f func(t *Term)) { visit0(ts, f, true) }

func visit0(ts []*Term, f func(t *Term), binders bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		if !binders && (t.op == OLambda || t.op == OForall || t.op == OExists) {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.mons {
			for _, a := range m.A {
				rec(a)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
}

// instantiate quantified facts at ground indices; returns the new facts.
func (q *query) instantiate() []*Term {
	sel := map[*Term][]*Term{}   // array -> index terms
	apps := map[string][]*Term{} // application name -> terms
	var skInts []*Term
	visit(q.ground, func(t *Term) {
		switch t.op {
		case OSelect:
			sel[t.args[0]] = append(sel[t.args[0]], t.args[1])
		case OApp:
			apps[t.name] = append(apps[t.name], t)
		case OVar:
			if t.sort == IntS && (strings.HasPrefix(t.name, "sk!") || strings.HasPrefix(t.name, "k!")) {
				skInts = append(skInts, t)
			}
		}
	})
	if q.itRound < 2 {
		// values of other iterations are not followed any further
		if q.itRound++; q.itBase == nil {
			q.itBase = map[*Term]bool{}
		}
		for n, ts := range apps {
			if strings.HasPrefix(n, "it.") {
				for _, t := range ts {
					q.itBase[t] = true
				}
			}
		}
	}
	var out []*Term
	for _, x := range q.quants {
		cands := q.candidates(x, sel, apps)
		if len(cands) == 0 && len(x.bvs) == 1 {
			for _, s := range skInts {
				cands = append(cands, map[*Term]*Term{x.bvs[0]: s})
			}
		}
		n := 0
		for _, c := range cands {
			var k []*Term
			for _, b := range x.bvs {
				k = append(k, c[b])
			}
			key := ids(k)
			if x.done[key] {
				continue
			}
			x.done[key] = true
			inst := Subst(x.body, c)
			if inst != True {
				out = append(out, inst)
			}
			n++
			if n > 60 {
				break
			}
		}
	}
	return out
}

func (q *query) candidates(x *quant, sel map[*Term][]*Term, apps map[string][]*Term) []map[*Term]*Term {
	isBV := map[*Term]bool{}
	for _, b := range x.bvs {
		isBV[b] = true
	}
	bvsIn := func(t *Term) []*Term {
		var r []*Term
		fv := freeOf(t)
		for _, b := range x.bvs {
			if fv[b] {
				r = append(r, b)
			}
		}
		return r
	}
	var res []map[*Term]*Term
	// patterns: selects (array without bound variables)
	var pats []*Term
	var appPats []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OSelect && len(bvsIn(t.args[0])) == 0 && len(bvsIn(t.args[1])) > 0 {
			pats = append(pats, t)
		}
		if t.op == OApp && len(bvsIn(t)) > 0 && (t.name == "div" || t.name == "mod" || strings.HasPrefix(t.name, "skf!") || strings.HasPrefix(t.name, "it.") || strings.HasPrefix(t.name, "u.")) {
			appPats = append(appPats, t)
		}
		if t.op == OLambda || t.op == OForall || t.op == OExists {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.mons {
			for _, a := range m.A {
				rec(a)
			}
		}
	}
	rec(x.body)
	type partial = map[*Term]*Term
	perPat := [][]partial{}
	for _, p := range pats {
		var ps []partial
		for _, g := range sel[p.args[0]] {
			if b := unify(p.args[1], g, x.bvs); b != nil {
				ps = append(ps, b)
			}
		}
		perPat = append(perPat, ps)
		for _, b := range ps {
			if len(b) == len(x.bvs) {
				res = append(res, b)
			}
		}
	}
	for _, p := range appPats {
		if strings.HasPrefix(p.name, "it.") {
			plain := true
			for _, a := range p.args {
				if !isBV[a] && len(bvsIn(a)) > 0 {
					plain = false
				}
			}
			if !plain {
				continue // would go on to the next iteration, and the next
			}
		}
		for _, g := range apps[p.name] {
			if len(g.args) != len(p.args) {
				continue
			}
			if q.itBase != nil && strings.HasPrefix(p.name, "it.") && !q.itBase[g] {
				continue
			}
			b := partial{}
			ok := true
			for i := range p.args {
				bi := bvsIn(p.args[i])
				if len(bi) == 0 {
					if p.args[i] != g.args[i] {
						ok = false
					}
					continue
				}
				u := unify(p.args[i], g.args[i], x.bvs)
				if u == nil {
					ok = false
					break
				}
				for k, v := range u {
					if o, has := b[k]; has && o != v {
						ok = false
					}
					b[k] = v
				}
			}
			if ok && len(b) > 0 {
				perPat = append(perPat, []partial{b})
				if len(b) == len(x.bvs) {
					res = append(res, b)
				}
			}
		}
	}
	if len(x.bvs) == 1 && x.bvs[0].sort == IntS {
		// where bounds meet: a third bound besides the range
		b := x.bvs[0]
		var ends []*Term
		var bounds func(t *Term)
		bounds = func(t *Term) {
			switch t.op {
			case OAnd, OOr, ONot:
				for _, a := range t.args {
					bounds(a)
				}
			case OGe0:
				var c *big.Rat
				for _, m := range polyOf(t.args[0]) {
					if len(m.A) == 1 && m.A[0] == b {
						c = m.C
					} else {
						for _, a := range m.A {
							if freeOf(a)[b] {
								return
							}
						}
					}
				}
				if c != nil && (c.Cmp(ratI(1)) == 0 || c.Cmp(ratI(-1)) == 0) {
					// c*b + rest >= 0
					rest := Sub(t.args[0], mkPoly(IntS, []Mono{{c, []*Term{b}}}))
					if c.Sign() > 0 {
						rest = Neg(rest)
						ends = append(ends, rest, Sub(rest, Int(1)))
					} else {
						ends = append(ends, rest, Add(rest, Int(1)))
					}
				}
			}
		}
		bounds(x.body)
		if len(ends) >= 6 || len(ends) == 4 && sumAt(x.body, b) {
			for _, e := range ends {
				res = append(res, partial{b: e})
			}
		}
	}
	if len(x.bvs) == 2 {
		// combine partial bindings
		var p0, p1 []partial
		for _, ps := range perPat {
			for _, b := range ps {
				if len(b) == 1 {
					if _, ok := b[x.bvs[0]]; ok {
						p0 = append(p0, b)
					} else {
						p1 = append(p1, b)
					}
				}
			}
		}
		for _, a := range p0 {
			for _, b := range p1 {
				if len(res) > 40 {
					break
				}
				res = append(res, partial{x.bvs[0]: a[x.bvs[0]], x.bvs[1]: b[x.bvs[1]]})
			}
		}
	}
	return res
}

// sumAt tells whether t contains a sum or maximum up to b.
func sumAt(t, b *Term) bool {
	found := false
	visit([]*Term{t}, func(t *Term) {
		if t.op == OApp && (t.name == "SUM" || t.name == "MAXF") && len(t.args) == 2 && t.args[1] == b {
			found = true
		}
	})
	return found
}

// unify the index pattern p (over bvs) with the ground term g.
func unify(p, g *Term, bvs []*Term) map[*Term]*Term {
	fv := freeOf(p)
	var in []*Term
	for _, b := range bvs {
		if fv[b] {
			in = append(in, b)
		}
	}
	res := map[*Term]*Term{}
	rest := p
	for _, b := range in {
		// non-linear occurrence b*n
		for _, m := range polyOf(rest) {
			if len(m.A) == 2 && (m.A[0] == b || m.A[1] == b) {
				n := m.A[0]
				if n == b {
					n = m.A[1]
				}
				if occursAny(n, in) {
					return nil
				}
				// cofactor of n in g
				var cof []Mono
				for _, gm := range polyOf(g) {
					for i, a := range gm.A {
						if a == n {
							o := append(append([]*Term(nil), gm.A[:i]...), gm.A[i+1:]...)
							q := new(big.Rat).Quo(gm.C, m.C)
							if !q.IsInt() && g.sort == IntS {
								return nil
							}
							cof = append(cof, Mono{q, o})
							break
						}
					}
				}
				// the cofactor may legitimately be zero
				res[b] = mkPoly(g.sort, cof)
			}
		}
	}
	for b, v := range res {
		rest = subst1(rest, b, v)
	}
	for _, b := range in {
		if _, ok := res[b]; ok {
			continue
		}
		var c *big.Rat
		for _, m := range polyOf(rest) {
			if len(m.A) == 1 && m.A[0] == b {
				c = m.C
			} else {
				for _, a := range m.A {
					if a != b && occurs(b, a) {
						return nil
					}
				}
			}
		}
		if c == nil {
			return nil
		}
		other := Sub(rest, Scale(b, c))
		if c.Cmp(ratI(1)) != 0 && c.Cmp(ratI(-1)) != 0 && b.sort == IntS {
			// the stride must divide
			for _, m := range polyOf(Sub(g, other)) {
				if !new(big.Rat).Quo(m.C, c).IsInt() {
					return nil
				}
			}
		}
		// other bound variables remaining: only solvable if none
		if occursAny(other, in) {
			// bind only if the others cancel
			return nil
		}
		v := Scale(Sub(g, other), new(big.Rat).Inv(c))
		res[b] = v
		rest = subst1(rest, b, v)
	}
	return res
}

func occursAny(t *Term, bs []*Term) bool {
	fv := freeOf(t)
	for _, b := range bs {
		if fv[b] {
			return true
		}
	}
	return false
}

// products multiplies two known inequalities p>=0 and q>=0 when the nonlinear
// monomials of the product all occur in a third one.
func (q *query) products() []*Term {
	var lin []*Term
	var targets []map[string]bool
	for _, g := range q.ground {
		if g.op != OGe0 || g.args[0].sort != IntS {
			continue
		}
		ms := polyOf(g.args[0])
		nl := map[string]bool{}
		for _, m := range ms {
			if len(m.A) > 1 {
				nl[monoKey(m)] = true
			}
		}
		if len(nl) > 1 {
			targets = append(targets, nl)
		} else if len(nl) == 0 && len(ms) <= 4 && len(lin) < 40 {
			lin = append(lin, g.args[0])
		}
	}
	if len(targets) == 0 {
		return nil
	}
	var out []*Term
	for i, a := range lin {
		for _, b := range lin[i+1:] {
			if len(out) > 20 {
				return out
			}
			if len(polyOf(a)) < 2 && len(polyOf(b)) < 2 {
				continue
			}
			p := Mul(a, b)
			for _, nl := range targets {
				n, all := 0, true
				for _, m := range polyOf(p) {
					if len(m.A) > 1 {
						n++
						all = all && nl[monoKey(m)]
					}
				}
				if all && n > 1 {
					out = append(out, ge0(p))
					break
				}
			}
		}
	}
	return out
}

// lemmas adds ground facts about interpreted-by-lemma operations.
func (q *query) lemmas() []*Term {
	var out []*Term
	emit := func(t *Term) {
		if t != True && !q.extra[t.id] {
			q.extra[t.id] = true
			out = append(out, t)
		}
	}
	var sums, maxs, divs, invs, lasts, blks []*Term
	var imonos [][]*Term
	var ges []*Term
	imSeen := map[string]bool{}
	testers := map[*Term][]*Term{} // is:NAME applications by argument
	var exps, logs []*Term
	var expProds [][2]*Term
	visit(q.ground, func(t *Term) {
		switch t.op {
		case OEq0:
			if ms := polyOf(t.args[0]); len(ms) == 2 && len(ms[0].A) == 1 && len(ms[1].A) == 1 {
				a, b := ms[0].A[0], ms[1].A[0]
				if !isCtor(a) {
					a, b = b, a
				}
				if isCtor(a) && !isCtor(b) {
					name := a.name[2:]
					r := IsCtor(name, b)
					for i, x := range a.args[:idArgs(a)] {
						r = And(r, Eq(CtorArg(name, i, b), x))
					}
					emit(And(Imp(t, r), Imp(r, t)))
				}
			}
		case OGe0:
			if t.args[0].sort == IntS && len(ges) < 200 {
				ges = append(ges, t)
			}
		case OApp:
			if strings.HasPrefix(t.name, "is:") {
				for _, o := range testers[t.args[0]] {
					emit(Not(And(o, t)))
				}
				testers[t.args[0]] = append(testers[t.args[0]], t)
			}
			switch t.name {
			case "SUM":
				sums = append(sums, t)
			case "BLK":
				blks = append(blks, t)
			case "MAXF":
				maxs = append(maxs, t)
			case "LAST":
				lasts = append(lasts, t)
			case "div", "mod":
				divs = append(divs, t)
			case "inv":
				invs = append(invs, t)
			case "exp":
				exps = append(exps, t)
				emit(Gt(t, RealN(0)))
			case "log":
				logs = append(logs, t)
				if r, ok := t.args[0].isInt(); ok && r == 1 {
					emit(Eq(t, RealN(0)))
				}
			case "sqrt":
				emit(Imp(Ge(t.args[0], RealN(0)), And(Ge(t, RealN(0)), Eq(Mul(t, t), t.args[0]))))
			case "tanh":
				emit(And(Lt(t, RealN(1)), Gt(t, RealN(-1))))
				if l := t.args[0]; l.op == OApp && l.name == "log" {
					// tanh(log u) = (u^2-1)/(u^2+1) for u > 0
					u := l.args[0]
					u2 := Mul(u, u)
					emit(Imp(Gt(u, RealN(0)), Eq(t, Mul(Sub(u2, RealN(1)), Inv(Add(u2, RealN(1)))))))
				}
			case "to_real":
			}
		case OPoly:
			if t.sort == RealS && len(expProds) < 8 {
				for _, m := range t.mons {
					e, pr, n := RealN(0), RealN(1), 0
					for _, a := range m.A {
						if a.op == OApp && a.name == "exp" {
							e, pr = Add(e, a.args[0]), Mul(pr, a)
							n++
						}
					}
					if n >= 2 {
						expProds = append(expProds, [2]*Term{e, pr})
					}
				}
			}
			if t.sort == IntS {
				for _, m := range t.mons {
					if len(m.A) >= 2 && !imSeen[ids(m.A)] {
						imSeen[ids(m.A)] = true
						imonos = append(imonos, m.A)
					}
				}
			}
		}
	})
	for _, t := range invs {
		x := t.args[0]
		emit(Imp(Not(Eq(x, RealN(0))), Eq(Mul(x, t), RealN(1))))
		emit(Imp(Gt(x, RealN(0)), Gt(t, RealN(0))))
		emit(Imp(Lt(x, RealN(0)), Lt(t, RealN(0))))
		emit(Imp(Eq(x, RealN(0)), Eq(t, RealN(0))))
	}
	if len(exps) > 6 {
		exps = exps[:6]
	}
	for i, a := range exps {
		emit(Imp(Ge(a.args[0], RealN(0)), Ge(a, RealN(1))))
		emit(Imp(Le(a.args[0], RealN(0)), Le(a, RealN(1))))
		for _, b := range exps[i+1:] {
			// exp(x)*exp(-x)=1 and monotonicity
			if r, ok := Add(a.args[0], b.args[0]).isNum(); ok && r.Sign() == 0 {
				emit(Eq(Mul(a, b), RealN(1)))
			}
			emit(Imp(Le(a.args[0], b.args[0]), Le(a, b)))
			emit(Imp(Ge(a.args[0], b.args[0]), Ge(a, b)))
		}
		if l := a.args[0]; l.op == OApp && l.name == "log" {
			emit(Imp(Gt(l.args[0], RealN(0)), Eq(a, l.args[0])))
		}
	}
	if len(logs) > 4 {
		logs = logs[:4]
	}
	if len(logs) > 1 || len(exps) > 0 {
		for i, l := range logs {
			u := l.args[0]
			for _, m := range logs[i+1:] {
				w := m.args[0]
				emit(Imp(And(Gt(u, RealN(0)), Le(u, w)), Le(l, m)))
				emit(Imp(And(Gt(w, RealN(0)), Le(w, u)), Le(m, l)))
			}
			eps := expProds
			for _, e := range exps {
				if e.args[0] != l {
					eps = append(eps, [2]*Term{e.args[0], e})
				}
			}
			for _, e := range eps {
				// exp(y) >= u exactly when y >= log u
				emit(Imp(And(Gt(u, RealN(0)), Ge(e[0], l)), Ge(e[1], u)))
				emit(Imp(And(Gt(u, RealN(0)), Le(e[0], l)), Le(e[1], u)))
			}
		}
	}
	divPairs := map[string]bool{}
	for i, t := range divs {
		for _, u := range divs[i+1:] {
			if t.args[1] != u.args[1] {
				continue
			}
			a, c := t.args[0], u.args[0]
			if Sub(a, c) == Int(1) {
				a, c = c, a
			}
			if Sub(c, a) != Int(1) {
				continue
			}
			b := t.args[1]
			d1, m1, d2, m2 := IDiv(a, b), IMod(a, b), IDiv(c, b), IMod(c, b)
			g := And(Gt(b, Int(0)), Ge(a, Int(0)))
			emit(Imp(And(g, Lt(Add(m1, Int(1)), b)), And(Eq(d2, d1), Eq(m2, Add(m1, Int(1))))))
			emit(Imp(And(g, Ge(Add(m1, Int(1)), b)), And(Eq(d2, Add(d1, Int(1))), Eq(m2, Int(0)))))
		}
	}
	// quotients of numerators that differ by a multiple of the divisor and a
	// small rest (quotients are rounded down)
	if len(divs) <= 12 {
		for i, t := range divs {
			for j, u := range divs {
				if i == j || t.args[1] != u.args[1] || t.args[0] == u.args[0] {
					continue
				}
				a, c, b := t.args[0], u.args[0], t.args[1]
				if len(polyOf(c)) != 1 {
					continue
				}
				q, r := splitBy(Sub(a, c), b)
				if q == Int(0) {
					continue
				}
				da, dc := IDiv(a, b), IDiv(c, b)
				m := Sub(c, Mul(b, dc))
				r = Add(m, r)
				g := Gt(b, Int(0))
				emit(Imp(g, And(Ge(m, Int(0)), Lt(m, b))))
				emit(Imp(And(g, Ge(r, Int(0)), Lt(r, b)), Eq(da, Add(dc, q))))
				emit(Imp(And(g, Ge(r, b), Lt(r, Scale(b, ratI(2)))), Eq(da, Add(dc, q, Int(1)))))
				emit(Imp(And(g, Lt(r, Int(0)), Ge(r, Neg(b))), Eq(da, Add(dc, q, Int(-1)))))
			}
		}
	}
	// multiples of the divisor that the numerator is compared with
	if len(divs) <= 6 {
		var ges []*Term
		visit(q.ground, func(t *Term) {
			if t.op == OGe0 && t.args[0].sort == IntS && len(ges) < 200 {
				ges = append(ges, t.args[0])
			}
		})
		for _, t := range divs {
			a, b := t.args[0], t.args[1]
			if _, ok := b.isNum(); ok || t.name != "div" {
				continue // divs holds the remainders as well
			}
			seen := map[*Term]bool{}
			for _, p := range ges {
				for _, d := range []*Term{Sub(p, a), Add(p, a)} {
					f, r := splitBy(d, b)
					if _, ok := r.isNum(); !ok || f == Int(0) || hasBoundVar(f) {
						continue
					}
					if d == Sub(p, a) {
						f = Neg(f)
					}
					if containsTerm(f, t) || seen[f] || len(seen) > 4 {
						continue
					}
					seen[f] = true
					w, g := Sub(a, Mul(b, f)), Gt(b, Int(0))
					emit(Imp(And(g, Ge(w, Int(0)), Lt(w, b)), Eq(t, f)))
					emit(Imp(And(g, Lt(w, Int(0))), Lt(t, f)))
					emit(Imp(And(g, Ge(w, b)), Gt(t, f)))
				}
			}
		}
	}
	for _, t := range q.products() {
		emit(t)
	}
	for _, t := range divs {
		a, b := t.args[0], t.args[1]
		k := ids([]*Term{a, b})
		if divPairs[k] {
			continue
		}
		divPairs[k] = true
		d, m := IDiv(a, b), IMod(a, b)
		if d.op != OApp || m.op != OApp {
			continue
		}
		emit(Imp(And(Gt(b, Int(0)), Ge(a, Int(0))), And(Eq(a, Add(Mul(d, b), m)), Ge(m, Int(0)), Lt(m, b), Ge(d, Int(0)))))
		for _, f := range ges {
			co, rest, ok := linIn(f.args[0], a)
			if !ok || co != Int(-1) {
				continue
			}
			lim := Add(rest, Int(1))
			if bn, ok := b.isInt(); ok && bn > 0 {
				// a <= rest < b*(floor(rest/b)+1): round the constant up
				c := Num0(IntS)
				for _, mm := range polyOf(rest) {
					if len(mm.A) == 0 {
						c = mkPoly(IntS, []Mono{mm})
					}
				}
				if cn, ok := c.isInt(); ok {
					fl := cn / bn
					if cn%bn != 0 && cn < 0 {
						fl--
					}
					lim = Add(Sub(rest, c), Int((fl+1)*bn))
				}
			}
			if R := divPoly(lim, b); R != nil {
				emit(Imp(And(Gt(b, Int(0)), Ge(a, Int(0)), f), Lt(d, R)))
			}
		}
		// numerator r*b + rest
		var cof, rest []Mono
		for _, mm := range polyOf(a) {
			hit := false
			for i, at := range mm.A {
				if at == b {
					cof = append(cof, Mono{mm.C, append(append([]*Term(nil), mm.A[:i]...), mm.A[i+1:]...)})
					hit = true
					break
				}
			}
			if !hit {
				rest = append(rest, mm)
			}
		}
		if bn, ok := b.isInt(); ok && bn > 0 {
			cof, rest = nil, nil
			for _, mm := range polyOf(a) {
				qn := new(big.Rat).Quo(mm.C, ratI(bn))
				if qn.IsInt() {
					cof = append(cof, Mono{qn, mm.A})
				} else {
					rest = append(rest, mm)
				}
			}
		}
		if len(cof) > 0 {
			qt, rt := mkPoly(IntS, cof), mkPoly(IntS, rest)
			emit(Imp(And(Gt(b, Int(0)), Ge(rt, Int(0)), Lt(rt, b)), And(Eq(d, qt), Eq(m, rt))))
		}
	}
	// non-linear integer monomials
	if len(imonos) <= 14 {
		for i, m := range imonos {
			if len(m) != 2 {
				continue
			}
			x, y := m[0], m[1]
			p := Mul(x, y)
			emit(Imp(And(Ge(x, Int(0)), Ge(y, Int(0))), Ge(p, Int(0))))
			emit(Imp(And(Gt(x, Int(0)), Gt(y, Int(0))), And(Ge(p, x), Ge(p, y))))
			for _, pr := range [][2]*Term{{x, y}, {y, x}} {
				emit(Imp(Eq(pr[0], Int(0)), Eq(p, Int(0))))
				emit(Imp(Eq(pr[0], Int(1)), Eq(p, pr[1])))
			}
			for _, m2 := range imonos[i+1:] {
				if len(m2) != 2 {
					continue
				}
				// shared factor
				for a := 0; a < 2; a++ {
					for b := 0; b < 2; b++ {
						if m[a] != m2[b] {
							continue
						}
						c, u, v := m[a], m[1-a], m2[1-b]
						pu, pv := Mul(u, c), Mul(v, c)
						emit(Imp(And(Ge(c, Int(0)), Lt(u, v)), Le(Add(pu, c), pv)))
						emit(Imp(And(Ge(c, Int(0)), Gt(u, v)), Le(Add(pv, c), pu)))
						emit(Imp(Eq(u, v), Eq(pu, pv)))
					}
				}
				// equal up to known equal factors
				emit(Imp(And(Eq(m[0], m2[0]), Eq(m[1], m2[1])), Eq(p, Mul(m2[0], m2[1]))))
				emit(Imp(And(Eq(m[0], m2[1]), Eq(m[1], m2[0])), Eq(p, Mul(m2[0], m2[1]))))
			}
		}
	}
	// sums
	for i, s := range sums {
		f, n := s.args[0], s.args[1]
		zero := Num(s.sort, ratI(0))
		emit(Imp(Le(n, Int(0)), Eq(s, zero)))
		emit(Imp(Eq(n, Int(1)), Eq(s, Select(f, Int(0)))))
		{
			key := fmt.Sprintf("sumsign%d", s.id)
			w := Var("wn!"+key, IntS)
			// a sum of non-negative (positive) terms is non-negative (positive)
			fw := Select(f, w)
			in := And(Ge(w, Int(0)), Lt(w, n))
			emit(Or(Ge(s, zero), And(in, Lt(fw, zero))))
			w2 := Var("wp!"+key, IntS)
			emit(Or(Le(n, Int(0)), Gt(s, zero), And(And(Ge(w2, Int(0)), Lt(w2, n)), Le(Select(f, w2), zero))))
		}
		for _, s2 := range sums[i+1:] {
			f2, n2 := s2.args[0], s2.args[1]
			if s2.sort != s.sort {
				continue
			}
			if f == f2 && s.sort == IntS {
				// partial sums of non-negative terms grow
				for d := 0; d < 2; d++ {
					a, b := s, s2
					if d == 1 {
						a, b = s2, s
					}
					na, nb := a.args[1], b.args[1]
					w := Var(fmt.Sprintf("wg!%d!%d", a.id, b.id), IntS)
					in := And(Gt(w, na), Lt(w, nb))
					emit(Or(Ge(na, nb), Lt(na, Int(0)), Le(Add(a, Select(f, na)), b), And(in, Lt(Select(f, w), zero))))
				}
			}
			if f != f2 && s.sort == IntS {
				for d := 0; d < 2; d++ {
					a, b := s, s2
					if d == 1 {
						a, b = s2, s
					}
					na, nb := a.args[1], b.args[1]
					w := Var(fmt.Sprintf("wh!%d!%d", a.id, b.id), IntS)
					w2 := Var(fmt.Sprintf("wi!%d!%d", a.id, b.id), IntS)
					emit(Or(Gt(na, nb), Lt(na, Int(0)), Le(a, b), And(Ge(w, Int(0)), Lt(w, na), Gt(Select(a.args[0], w), Select(b.args[0], w))),
						And(Ge(w2, na), Lt(w2, nb), Lt(Select(b.args[0], w2), zero))))
				}
			}
			w := Var(fmt.Sprintf("w!%d!%d", s.id, s2.id), IntS)
			in := And(Ge(w, Int(0)), Lt(w, n))
			emit(Or(Not(Eq(n, n2)), Eq(s, s2), And(in, Not(Eq(Select(f, w), Select(f2, w))))))
			if d, ok := Sub(n2, n).isInt(); ok && (d == 1 || d == -1) && f != f2 {
				// s = f(0) + s2 when g(j) = f(j+1)
				a, b, m := s, s2, n2
				if d == 1 {
					a, b, m = s2, s, n
				}
				fa, fb := a.args[0], b.args[0]
				w := Var(fmt.Sprintf("ws!%d!%d", s.id, s2.id), IntS)
				in := And(Ge(w, Int(0)), Lt(w, m))
				emit(Or(Lt(m, Int(0)), Eq(a, Add(Select(fa, Int(0)), b)), And(in, Not(Eq(Select(fb, w), Select(fa, Add(w, Int(1))))))))
			}
			if f == f2 {
				if d, ok := Sub(n2, n).isInt(); ok {
					a, b, na := s, s2, n
					if d < 0 {
						a, b, na, d = s2, s, n2, -d
					}
					if d <= 3 {
						sum := a
						for k := int64(0); k < d; k++ {
							sum = Add(sum, Select(f, Add(na, Int(k))))
						}
						emit(Imp(Ge(na, Int(0)), Eq(b, sum)))
					}
				}
			}
		}
	}
	for _, b := range blks {
		f, i := b.args[0], b.args[1]
		for _, s := range sums {
			if s.args[0] != f {
				continue
			}
			n := s.args[1]
			if n == b {
				continue
			}
			w := Var(fmt.Sprintf("wb!%d!%d", b.id, s.id), IntS)
			p := Sum(f, b)
			emit(Or(Lt(i, Int(0)), Ge(i, s), And(Ge(w, Int(0)), Lt(w, n), Lt(Select(f, w), Int(0))),
				And(Ge(b, Int(0)), Lt(b, n), Le(p, i), Lt(i, Add(p, Select(f, b))))))
		}
	}
	for i, s := range maxs {
		f, n := s.args[0], s.args[1]
		w := Var(fmt.Sprintf("am!%d", s.id), IntS)
		emit(Imp(Ge(n, Int(1)), And(Ge(w, Int(0)), Lt(w, n), Eq(Select(f, w), s))))
		u := freshBV(IntS)
		if !q.extra[1<<41|s.id] {
			q.extra[1<<41|s.id] = true
			q.addClause(Imp(And(Ge(u, Int(0)), Lt(u, n)), Le(Select(f, u), s)), []*Term{u})
		}
		emit(Imp(Ge(n, Int(1)), Ge(s, Select(f, Int(0)))))
		for _, s2 := range maxs[i+1:] {
			f2, n2 := s2.args[0], s2.args[1]
			ww := Var(fmt.Sprintf("wm!%d!%d", s.id, s2.id), IntS)
			emit(Or(Not(Eq(n, n2)), Lt(n, Int(1)), Eq(s, s2), And(Ge(ww, Int(0)), Lt(ww, n), Not(Eq(Select(f, ww), Select(f2, ww))))))
			w2 := Var(fmt.Sprintf("am!%d", s2.id), IntS)
			emit(Imp(And(Ge(n, Int(1)), Ge(n2, Int(1)), Lt(w2, n)), Le(Select(f, w2), s)))
			emit(Imp(And(Ge(n, Int(1)), Ge(n2, Int(1)), Lt(w, n2)), Le(Select(f2, w), s2)))
			if d, ok := Sub(n2, n).isInt(); ok && (d == 1 || d == -1) && f != f2 {
				// s = max(f(0), s2) when g(j) = f(j+1)
				a, b, m := s, s2, n2
				if d == 1 {
					a, b, m = s2, s, n
				}
				fa, fb := a.args[0], b.args[0]
				w := Var(fmt.Sprintf("wms!%d!%d", s.id, s2.id), IntS)
				in := And(Ge(w, Int(0)), Lt(w, m))
				x := Select(fa, Int(0))
				emit(Or(Lt(m, Int(1)), Eq(a, Ite(Gt(x, b), x, b)), And(in, Not(Eq(Select(fb, w), Select(fa, Add(w, Int(1))))))))
			}
			if f == f2 {
				if d, ok := Sub(n2, n).isInt(); ok && (d == 1 || d == -1) {
					a, b, na := s, s2, n
					if d < 0 {
						a, b, na = s2, s, n2
					}
					x := Select(f, na)
					emit(Imp(Ge(na, Int(1)), Eq(b, Ite(Gt(x, a), x, a))))
				}
			}
		}
	}
	for i, s := range lasts {
		f, n := s.args[0], s.args[1]
		emit(Ge(s, Int(-1)))
		emit(Imp(Ge(n, Int(0)), Lt(s, n)))
		emit(Imp(Ge(s, Int(0)), Eq(Select(f, s), Int(1))))
		u := freshBV(IntS)
		if !q.extra[1<<41|s.id] {
			q.extra[1<<41|s.id] = true
			q.addClause(Imp(And(Ge(u, Int(0)), Gt(u, s), Lt(u, n)), Not(Eq(Select(f, u), Int(1)))), []*Term{u})
		}
		for _, s2 := range lasts[i+1:] {
			f2, n2 := s2.args[0], s2.args[1]
			ww := Var(fmt.Sprintf("wl!%d!%d", s.id, s2.id), IntS)
			emit(Or(Not(Eq(n, n2)), Eq(s, s2), And(Ge(ww, Int(0)), Lt(ww, n), Not(Eq(Select(f, ww), Select(f2, ww))))))
			if f == f2 {
				if d, ok := Sub(n2, n).isInt(); ok && (d == 1 || d == -1) {
					a, b, na := s, s2, n
					if d < 0 {
						a, b, na = s2, s, n2
					}
					emit(Imp(Ge(na, Int(0)), Eq(b, Ite(Eq(Select(f, na), Int(1)), na, a))))
				}
			}
		}
	}
	return out
}

// nestedIte finds a conditional below a place where case analysis helps.
// splitBy writes p as q*b + r, collecting the monomials that contain b.
func splitBy(p, b *Term) (q, r *Term) {
	var cof, rest []Mono
	if ms := polyOf(b); b.op == OPoly && len(ms) == 1 && len(ms[0].A) > 1 && ms[0].C.Cmp(big.NewRat(1, 1)) == 0 {
		// b is a product
		for _, mm := range polyOf(p) {
			left := append([]*Term(nil), mm.A...)
			hit := true
			for _, f := range ms[0].A {
				k := -1
				for i, at := range left {
					if at == f {
						k = i
						break
					}
				}
				if k < 0 {
					hit = false
					break
				}
				left = append(left[:k:k], left[k+1:]...)
			}
			if hit {
				cof = append(cof, Mono{mm.C, left})
			} else {
				rest = append(rest, mm)
			}
		}
		return mkPoly(IntS, cof), mkPoly(IntS, rest)
	}
	for _, mm := range polyOf(p) {
		hit := false
		for i, at := range mm.A {
			if at == b {
				cof = append(cof, Mono{mm.C, append(append([]*Term(nil), mm.A[:i]...), mm.A[i+1:]...)})
				hit = true
				break
			}
		}
		if !hit {
			rest = append(rest, mm)
		}
	}
	return mkPoly(IntS, cof), mkPoly(IntS, rest)
}

func nestedIte(ts []*Term) *Term {
	var found *Term
	seen := map[*Term]bool{}
	var rec func(t *Term, inside bool)
	rec = func(t *Term, inside bool) {
		if found != nil || (seen[t] && !inside) {
			return
		}
		seen[t] = true
		if t.op == OIte && (inside || hasValRef(t)) && !hasBoundVar(t.args[0]) {
			found = t
			return
		}
		switch t.op {
		case OLambda, OForall, OExists:
			rec(t.args[1], true)
			return
		case OApp:
			for _, a := range t.args {
				rec(a, t.name != "to_real" || inside)
			}
			return
		case OSelect:
			rec(t.args[0], inside)
			rec(t.args[1], true)
			return
		}
		for _, a := range t.args {
			rec(a, inside)
		}
		for _, m := range t.mons {
			for _, a := range m.A {
				rec(a, inside || len(m.A) > 1)
			}
		}
	}
	for _, t := range ts {
		rec(t, false)
	}
	return found
}

func hasBoundVar(t *Term) bool {
	for v := range freeOf(t) {
		if v.op == OBVar {
			return true
		}
	}
	return false
}

var (
	statQueries  int64
	statNorm     int64
	statSolver   = map[string]int64{}
	statTime     time.Duration
	statMu       sync.Mutex
	termMu       sync.Mutex
	debugSMT     = os.Getenv("GOCV_SMT") != ""
	solverMillis = 4000
)

type solverJob struct {
	smtUF, smtNL string
	vars         []string
}

// Prove decides facts |- goal.  Term construction is serialised; solver runs
// happen outside the lock.
func Prove(facts []*Term, goal *Term, millis int, wantModel bool) ProofResult {
	start := time.Now()
	r := proveRec(facts, goal, 0, millis, wantModel)
	r.Wall = time.Since(start)
	return r
}

var proveDeadline time.Time

func proveRec(facts []*Term, goal *Term, depth, millis int, wantModel bool) ProofResult {
	if !proveDeadline.IsZero() && time.Now().After(proveDeadline) {
		return ProofResult{Status: "timeout"}
	}
	// split conjunctive goals
	if goal == True {
		return ProofResult{OK: true, Backend: "normaliser", Status: "unsat"}
	}
	if goal.op == OAnd {
		back := "normaliser"
		for _, g := range goal.args {
			r := proveRec(facts, g, depth, millis, wantModel)
			if !r.OK {
				return r
			}
			if r.Backend != "normaliser" {
				back = r.Backend
			}
		}
		return ProofResult{OK: true, Backend: back, Status: "unsat"}
	}
	termMu.Lock()
	q := newQuery()
	q.add(Not2(goal), nil)
	for _, f := range facts {
		q.add(f, nil)
	}
	q.early = millis > 1000
	q.backend = "normaliser"
	ok := q.propagate()
	if ok {
		q.tidySums()
		ok = q.saturate()
	}
	if !ok {
		termMu.Unlock()
		return ProofResult{OK: true, Backend: q.backend, Status: "unsat"}
	}
	var split *Term
	if depth < 7 {
		if it := nestedIte(q.ground); it != nil {
			split = it.args[0]
		}
	}
	if split != nil {
		var quants []*Term
		for _, x := range q.quants {
			b := x.body
			for _, v := range x.bvs {
				b = Forall([]*Term{v}, b)
			}
			quants = append(quants, b)
		}
		base := append(append([]*Term(nil), q.ground...), quants...)
		nsp := Not(split)
		termMu.Unlock()
		back := "normaliser"
		cases := []*Term{split, nsp}
		if split.op == OOr && len(split.args) <= 3 {
			cases = append(append([]*Term(nil), split.args...), nsp)
		}
		for _, c := range cases {
			r := proveRec(append([]*Term{c}, base...), False, depth+1, millis, wantModel)
			if !r.OK {
				return r
			}
			if r.Backend != "normaliser" {
				back = r.Backend
			}
		}
		return ProofResult{OK: true, Backend: back, Status: "unsat"}
	}
	uf, vars, uninterp := printSMT(q.ground, false, wantModel)
	nl := ""
	if uninterp {
		nl, _, _ = printSMT(q.ground, true, wantModel)
	}
	// the negated goal as alternatives, under sums or binders that only the
	// normaliser looks into
	var alt *Term
	if depth < 3 {
		for i, g := range q.ground {
			if i >= 6 {
				break
			}
			if g.op == OOr && len(g.args) <= 4 && hasBinder(g) {
				alt = g
				break
			}
		}
	}
	var rest []*Term
	if alt != nil {
		for _, x := range q.quants {
			b := x.body
			for _, v := range x.bvs {
				b = Forall([]*Term{v}, b)
			}
			rest = append(rest, b)
		}
		for _, g := range q.ground {
			if g != alt {
				rest = append(rest, g)
			}
		}
	}
	termMu.Unlock()
	r := runSolvers(uf, nl, vars, millis)
	if !r.OK && alt != nil {
		back := "normaliser"
		var before []*Term
		for _, c := range alt.args {
			r2 := proveRec(append(append([]*Term{c}, before...), rest...), False, depth+1, millis, wantModel)
			if !r2.OK {
				return r
			}
			if r2.Backend != "normaliser" {
				back = r2.Backend
			}
			before = append(before, Not(c))
		}
		return ProofResult{OK: true, Backend: back, Status: "unsat"}
	}
	if debugSMT && !r.OK {
		var b strings.Builder
		for _, g := range q.ground {
			b.WriteString(g.String() + "\n")
		}
		os.WriteFile("/tmp/gocv-ground.txt", []byte(b.String()), 0o644)
	}
	return r
}

// equationsAt finds what the universally quantified facts say about terms of
// index k: equations of terms that mention k with terms that do not.  Called
// with termMu held.
func (q *query) equationsAt(k *Term, fs []*Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, x := range q.quants {
		if len(x.bvs) != 1 || x.bvs[0].sort != IntS {
			continue
		}
		in := Subst(x.body, map[*Term]*Term{x.bvs[0]: k})
		parts := []*Term{in}
		if in.op == OOr {
			parts = in.args
		}
		var left []*Term
		for _, p := range parts {
			if p.op == OGe0 {
				termMu.Unlock()
				no := QuickProve(fs, Not(p))
				termMu.Lock()
				if no {
					continue
				}
			}
			left = append(left, p)
		}
		if len(left) != 1 {
			continue
		}
		conj := []*Term{left[0]}
		if left[0].op == OAnd {
			conj = left[0].args
		}
		for _, c := range conj {
			if c.op != OEq0 {
				continue
			}
			var at *Term
			var co *big.Rat
			n := 0
			ms := polyOf(c.args[0])
			for _, mm := range ms {
				has := false
				for _, a := range mm.A {
					if freeOf(a)[k] {
						has = true
					}
				}
				if has {
					n++
					if len(mm.A) == 1 {
						at, co = mm.A[0], mm.C
					}
				}
			}
			if n != 1 || at == nil || at == k || m[at] != nil || (co.Cmp(ratI(1)) != 0 && co.Cmp(ratI(-1)) != 0) {
				continue
			}
			// co*at + rest = 0
			rest := Sub(c.args[0], mkPoly(c.args[0].sort, []Mono{{co, []*Term{at}}}))
			if co.Sign() > 0 {
				rest = Neg(rest)
			}
			m[at] = rest
		}
	}
	return m
}

// tidySums simplifies quotients and remainders below the binders of sums with
// the ranges of the indices: (k + n*q) div n is q.  Called with termMu held.
func isFold(t *Term) bool {
	return t.op == OApp && (t.name == "SUM" || t.name == "MAXF")
}

func (q *query) tidySums() {
	var sums []*Term
	visit(q.ground, func(t *Term) {
		if isFold(t) && t.args[0].op == OLambda {
			sums = append(sums, t)
		}
	})
	hasDiv := func(t *Term) bool {
		r := false
		visitAll([]*Term{t}, func(t *Term) {
			if t.op == OApp && (t.name == "div" || t.name == "mod") {
				r = true
			}
		})
		return r
	}
	var fs0 []*Term
	var tidy func(t *Term, fs []*Term) *Term
	tidy = func(t *Term, fs []*Term) *Term {
		if !hasDiv(t) {
			return t
		}
		if t.op == OLambda {
			return t
		}
		if isFold(t) && t.args[0].op == OLambda {
			bv, body := t.args[0].args[0], t.args[0].args[1]
			k := Var(fmt.Sprintf("tk!%d", atomic.AddInt64(&skSeq, 1)), IntS)
			n := tidy(t.args[1], fs)
			fk := append(fs[:len(fs):len(fs)], Ge(k, Int(0)), Lt(k, n))
			b0 := subst1(body, bv, k)
			if m := q.equationsAt(k, fk); len(m) > 0 {
				b0 = Subst(b0, m)
			}
			nb := tidy(b0, fk)
			if t.name == "MAXF" {
				return MaxF(Lambda(bv, subst1(nb, k, bv)), n)
			}
			return Sum(Lambda(bv, subst1(nb, k, bv)), n)
		}
		// one argument of t (in its normal form) at a time
		m := map[*Term]*Term{}
		var walk func(u *Term)
		walk = func(u *Term) {
			if u.op == OLambda || u.op == OForall || u.op == OExists || m[u] != nil || !hasDiv(u) {
				return
			}
			if isFold(u) {
				if v := tidy(u, fs); v != u {
					m[u] = v
				}
				return
			}
			if u.op == OApp && (u.name == "div" || u.name == "mod") {
				a, b := tidy(u.args[0], fs), tidy(u.args[1], fs)
				if qt, r := splitBy(a, b); qt != Int(0) {
					termMu.Unlock()
					ok := QuickProve(fs, And(Ge(r, Int(0)), Lt(r, b)))
					termMu.Lock()
					if ok {
						if u.name == "div" {
							m[u] = qt
						} else {
							m[u] = r
						}
						return
					}
				}
				v := IMod(a, b)
				if u.name == "div" {
					v = IDiv(a, b)
				}
				if v != u {
					m[u] = v
				}
				return
			}
			for _, a := range u.args {
				walk(a)
			}
			for _, mm := range u.mons {
				for _, a := range mm.A {
					walk(a)
				}
			}
		}
		walk(t)
		if len(m) == 0 {
			return t
		}
		return Subst(t, m)
	}
	m := map[*Term]*Term{}
	for _, s := range sums {
		if !hasDiv(s) {
			continue
		}
		if fs0 == nil {
			for _, g := range q.ground {
				sum := false
				visit([]*Term{g}, func(t *Term) {
					if isFold(t) {
						sum = true
					}
				})
				if !sum {
					fs0 = append(fs0, g)
				}
			}
		}
		if v := tidy(s, fs0); v != s {
			m[s] = v
		}
	}
	if len(m) == 0 {
		return
	}
	sb := &subster{m: m, memo: map[*Term]*Term{}}
	old := q.ground
	q.ground = nil
	q.seen = map[int]bool{}
	for _, g := range old {
		q.addClause(sb.do(g), nil)
	}
}

func Not2(t *Term) *Term {
	if hasQuant(t) && (t.op == OForall || t.op == OExists || t.op == OIff || t.op == OIte) {
		return expandQ(mkRaw(ONot, BoolS, "", t))
	}
	return Not(t)
}

func (q *query) saturate() bool {
	if !q.propagate() {
		return false
	}
	for round := 0; round < 4; round++ {
		n := 0
		if round > 0 && len(q.ground) > 50 && q.early {
			// a large query: the solver may not need the remaining instances
			smt, _, _ := printSMT(q.ground, false, false)
			if st, _ := runOne("z3", smt, nil, 300); st == "unsat" {
				q.backend = "z3"
				return false
			}
		}
		for _, t := range q.instantiate() {
			q.add(t, nil)
			n++
		}
		if len(q.ground) > 900 {
			break
		}
		for _, t := range q.lemmas() {
			q.add(t, nil)
			n++
		}
		if n == 0 {
			break
		}
		if !q.propagate() {
			return false
		}
	}
	nz := func(d *Term) bool {
		if knownPos(d) {
			return true
		}
		for _, g := range []*Term{Not(eq0(d)), gt0(d), gt0(Neg(d))} {
			if g == True {
				return true
			}
			for _, f := range q.ground {
				if f == g {
					return true
				}
			}
		}
		return false
	}
	for _, g := range q.ground {
		if g.op == ONot && g.args[0].op == OEq0 && g.args[0].args[0].sort == RealS && clearsToZero(g.args[0].args[0], nz) {
			return false
		}
	}
	return true
}

// ---------- SMT printing ----------

type printer struct {
	native  bool
	decl    map[string]string
	names   map[*Term]string
	defs    []string
	count   map[*Term]int
	n       int
	uninter bool
	nonneg  []string
	lam     map[*Term]string
	vars    []string
}

func smtSym(s string) string {
	return "|" + strings.ReplaceAll(s, "|", "!") + "|"
}

func ratSMT(r *big.Rat, real bool) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	if real {
		if a.IsInt() {
			s = a.Num().String() + ".0"
		} else {
			s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
		}
	} else {
		s = a.Num().String()
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

func (p *printer) declare(name, sig string) {
	if _, ok := p.decl[name]; !ok {
		p.decl[name] = sig
	}
}

func (p *printer) term(t *Term) string {
	if s, ok := p.names[t]; ok {
		return s
	}
	s := p.term0(t)
	if len(s) > 40 && !hasBoundVar(t) {
		p.n++
		nm := fmt.Sprintf("$%d", p.n)
		p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", nm, t.sort, s))
		s = nm
	}
	p.names[t] = s
	if t.nonneg && t.op != OPoly {
		if t.sort == RealS {
			p.nonneg = append(p.nonneg, "(assert (>= "+s+" 0.0))")
		} else {
			p.nonneg = append(p.nonneg, "(assert (>= "+s+" 0))")
		}
	}
	return s
}

func (p *printer) term0(t *Term) string {
	list := func(op string, ts []*Term) string {
		var b strings.Builder
		b.WriteString("(" + op)
		for _, a := range ts {
			b.WriteString(" " + p.term(a))
		}
		b.WriteString(")")
		return b.String()
	}
	zero := func(x *Term) string {
		if x.sort == RealS {
			return "0.0"
		}
		return "0"
	}
	switch t.op {
	case OVar:
		n := smtSym(t.name + ":" + sortSuffix(t.sort))
		p.declare(n, "() "+t.sort.String())
		if t.sort == IntS {
			p.vars = append(p.vars, n)
		}
		return n
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case ONot:
		return list("not", t.args)
	case OAnd:
		return list("and", t.args)
	case OOr:
		return list("or", t.args)
	case OEq0:
		return "(= " + p.term(t.args[0]) + " " + zero(t.args[0]) + ")"
	case OGe0:
		return "(>= " + p.term(t.args[0]) + " " + zero(t.args[0]) + ")"
	case OGt0:
		return "(> " + p.term(t.args[0]) + " " + zero(t.args[0]) + ")"
	case OIff, OEqA:
		return list("=", t.args)
	case OIte:
		return list("ite", t.args)
	case OSelect:
		return list("select", t.args)
	case OStore:
		return list("store", t.args)
	case OLambda:
		// closed lambdas are named; their defining equation is supplied by
		// instantiation, so the name itself is opaque here
		n := fmt.Sprintf("|lam%d|", t.id)
		p.declare(n, "() "+t.sort.String())
		return n
	case OPoly:
		if len(t.mons) == 0 {
			if t.sort == RealS {
				return "0.0"
			}
			return "0"
		}
		var parts []string
		for _, m := range t.mons {
			parts = append(parts, p.mono(m, t.sort))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case OApp:
		if t.name == "to_real" {
			return "(to_real " + p.term(t.args[0]) + ")"
		}
		n := smtSym(t.name + "/" + fmt.Sprint(len(t.args)) + sortSuffix(t.sort))
		sig := "("
		for i, a := range t.args {
			if i > 0 {
				sig += " "
			}
			sig += a.sort.String()
			n = strings.TrimSuffix(n, "|") + sortSuffix(a.sort) + "|"
		}
		sig += ") " + t.sort.String()
		p.declare(n, sig)
		if len(t.args) == 0 {
			return n
		}
		return list(n, t.args)
	}
	if t.op == OForall || t.op == OExists {
		// a quantified formula below other connectives is opaque to the solver
		n := smtSym(fmt.Sprintf("qf!%d", t.id))
		p.declare(n, "() Bool")
		return n
	}
	panic("print " + t.String())
}

func sortSuffix(s *Sort) string {
	if s.K == 'A' {
		return "A" + sortSuffix(s.Elem)
	}
	return string(s.K)
}

func (p *printer) mono(m Mono, s *Sort) string {
	real := s == RealS
	if len(m.A) == 0 {
		return ratSMT(m.C, real)
	}
	var prod string
	if len(m.A) == 1 {
		prod = p.term(m.A[0])
	} else if p.native {
		var b strings.Builder
		b.WriteString("(*")
		for _, a := range m.A {
			b.WriteString(" " + p.term(a))
		}
		b.WriteString(")")
		prod = b.String()
	} else {
		p.uninter = true
		f := "rmul"
		if !real {
			f = "imul"
		}
		p.declare(f, "("+s.String()+" "+s.String()+") "+s.String())
		prod = p.term(m.A[0])
		for _, a := range m.A[1:] {
			prod = "(" + f + " " + prod + " " + p.term(a) + ")"
		}
	}
	if m.C.Cmp(ratI(1)) == 0 {
		return prod
	}
	return "(* " + ratSMT(m.C, real) + " " + prod + ")"
}

func printSMT(ground []*Term, native, model bool) (string, []string, bool) {
	p := &printer{native: native, decl: map[string]string{}, names: map[*Term]string{}}
	var asserts []string
	for _, g := range ground {
		if hasBoundVar(g) {
			continue
		}
		asserts = append(asserts, "(assert "+p.term(g)+")")
	}
	var b strings.Builder
	if model {
		b.WriteString("(set-option :produce-models true)\n")
	}
	b.WriteString("(set-logic ALL)\n")
	var ns []string
	for n := range p.decl {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		b.WriteString("(declare-fun " + n + " " + p.decl[n] + ")\n")
	}
	// definitions may refer to earlier ones only; they were emitted bottom-up
	for _, d := range p.defs {
		b.WriteString(d + "\n")
	}
	for _, s := range p.nonneg {
		b.WriteString(s + "\n")
	}
	for _, a := range asserts {
		b.WriteString(a + "\n")
	}
	b.WriteString("(check-sat)\n")
	sort.Strings(p.vars)
	return b.String(), p.vars, p.uninter
}

var smtCache sync.Map

func runSolvers(uf, nl string, vars []string, millis int) ProofResult {
	if r, ok := smtCache.Load(uf); ok {
		return r.(ProofResult)
	}
	res := runSolvers0(uf, nl, vars, millis)
	smtCache.Store(uf, res)
	return res
}

var z3path = "z3"

func runSolvers0(uf, nl string, vars []string, millis int) ProofResult {
	atomic.AddInt64(&statQueries, 1)
	st, out := runOne("z3", uf, vars, millis)
	if st == "unsat" {
		return ProofResult{OK: true, Backend: "z3", Status: "unsat"}
	}
	best := ProofResult{Status: st, Backend: "z3", SMT: uf, Model: parseModel(out)}
	if nl != "" {
		st2, out2 := runOne("z3", nl, vars, millis)
		if st2 == "unsat" {
			return ProofResult{OK: true, Backend: "z3-nl", Status: "unsat"}
		}
		if st2 == "sat" {
			best = ProofResult{Status: "sat", Backend: "z3-nl", SMT: nl, Model: parseModel(out2)}
			return best
		}
		st3, _ := runOne("cvc5", nl, vars, millis)
		if st3 == "unsat" {
			return ProofResult{OK: true, Backend: "cvc5", Status: "unsat"}
		}
		best.Status = st3
	} else if st != "sat" {
		st3, _ := runOne("cvc5", uf, vars, millis)
		if st3 == "unsat" {
			return ProofResult{OK: true, Backend: "cvc5", Status: "unsat"}
		}
	}
	return best
}

var solverSem = make(chan struct{}, 8)

func runOne(solver, smt string, vars []string, millis int) (string, string) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	start := time.Now()
	var cmd *exec.Cmd
	switch solver {
	case "z3":
		cmd = exec.Command("z3", "-in", fmt.Sprintf("-t:%d", millis), fmt.Sprintf("-T:%d", millis/1000+2), "-memory:2000")
	case "cvc5":
		cmd = exec.Command("cvc5", "--lang", "smt2", fmt.Sprintf("--tlimit=%d", millis), "--produce-models")
	}
	in := smt
	if len(vars) > 0 && strings.Contains(smt, "produce-models") {
		in += "(get-value (" + strings.Join(dedup(vars), " ") + "))\n"
	}
	if solver == "cvc5" {
		in = strings.Replace(in, "(set-option :produce-models true)\n", "", 1)
	}
	cmd.Stdin = strings.NewReader(in)
	outb, _ := cmd.Output()
	out := string(outb)
	el := time.Since(start)
	statMu.Lock()
	statTime += el
	statSolver[solver]++
	statMu.Unlock()
	first := strings.TrimSpace(strings.SplitN(out, "\n", 2)[0])
	switch first {
	case "unsat", "sat":
		return first, out
	}
	if strings.Contains(out, "error") && debugSMT {
		fmt.Fprintln(os.Stderr, "solver error:", out[:min(len(out), 400)])
		os.WriteFile("/tmp/gocv-err.smt2", []byte(in), 0o644)
	}
	return "unknown", out
}

func dedup(s []string) []string {
	var r []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			r = append(r, x)
		}
	}
	return r
}

func parseModel(out string) map[string]string {
	m := map[string]string{}
	i := strings.Index(out, "\n")
	if i < 0 {
		return m
	}
	s := out[i+1:]
	for _, line := range strings.Split(s, "\n") {
		line = strings.TrimSpace(line)
		line = strings.Trim(line, "()")
		if !strings.HasPrefix(line, "|") {
			continue
		}
		j := strings.LastIndex(line, "|")
		m[line[1:j]] = strings.Trim(strings.TrimSpace(line[j+1:]), ")( ")
	}
	return m
}

// QuickProve is the cheap entailment test used while executing: it only ever
// prunes infeasible branches and drops provably redundant conditions.
var quickCache = map[string]bool{}
var quickSolve = true

func QuickProve(facts []*Term, goal *Term) bool {
	if goal == True {
		return true
	}
	if goal == False {
		return false
	}
	fv := freeOf(goal)
	// keep facts connected to the goal
	use := map[*Term]bool{}
	for v := range fv {
		use[v] = true
	}
	sel := make([]bool, len(facts))
	for round := 0; round < 3; round++ {
		ch := false
		for i, f := range facts {
			if sel[i] {
				continue
			}
			ff := freeOf(f)
			hit := false
			for v := range ff {
				if use[v] {
					hit = true
					break
				}
			}
			if hit {
				sel[i] = true
				ch = true
				for v := range ff {
					use[v] = true
				}
			}
		}
		if !ch {
			break
		}
	}
	var fs []*Term
	for i, f := range facts {
		if sel[i] {
			fs = append(fs, f)
		}
	}
	if len(fs) == 0 {
		return false
	}
	key := ids(fs) + "|" + ids([]*Term{goal})
	if r, ok := quickCache[key]; ok {
		return r
	}
	r := quickProve0(fs, goal)
	quickCache[key] = r
	return r
}

func quickProve0(fs []*Term, goal *Term) bool {
	termMu.Lock()
	q := newQuery()
	q.add(Not2(goal), nil)
	for _, f := range fs {
		q.add(f, nil)
	}
	if !q.propagate() {
		termMu.Unlock()
		return true
	}
	for _, t := range q.instantiate() {
		q.add(t, nil)
	}
	if !q.propagate() {
		termMu.Unlock()
		return true
	}
	for _, t := range q.lemmas() {
		q.add(t, nil)
	}
	if !q.propagate() {
		termMu.Unlock()
		return true
	}
	if !quickSolve {
		termMu.Unlock()
		return false
	}
	uf, _, _ := printSMT(q.ground, false, false)
	termMu.Unlock()
	if r, ok := smtCache.Load(uf); ok {
		return r.(ProofResult).OK
	}
	st, _ := runOne("z3", uf, nil, 300)
	if st == "unsat" {
		smtCache.Store(uf, ProofResult{OK: true, Backend: "z3", Status: "unsat"})
	}
	return st == "unsat"
}

func hasBinder(t *Term) bool {
	hit := false
	visit0([]*Term{t}, func(x *Term) { hit = hit || x.op == OLambda }, true)
	return hit
}
