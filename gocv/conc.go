package main

// Concurrency that is part of a contract (C28): locks that guard fields,
// channels used as one-shot signals or as semaphores, deferred calls.

import (
	"go/ast"
	"go/types"
)

// guardC: the field name+path may be accessed only while the mutex of the same
// object is held.
type guardC struct {
	name, path, mu string
	lv             *LV
}

// signalC: when the channel is closed, E holds; until then the locations are
// written by others.
type signalC struct {
	ch, e ast.Expr
	locs  []ast.Expr
}

type deferC struct {
	fr  *Frame
	run func(st *State)
}

const lockKind = "lock"

func lockKey(mu string) string {
	k := "ghost.lock." + mu
	regHeap(k, leafI, false)
	return k
}

func unlockKey(mu string) string {
	k := "ghost.unlock." + mu
	regHeap(k, leafI, false)
	return k
}

func tokenKey() string {
	regHeap("ghost.tokens", leafI, false)
	return "ghost.tokens"
}

func relKey() string {
	regHeap("ghost.rel", leafI, false)
	return "ghost.rel"
}

// beginConc reads the clauses guard, signal and detached.
func (ex *Exec) beginConc(sp *Spec, st *State, env *specEnv) {
	for _, c := range sp.all("guard") {
		ce := c.E.(*ast.CallExpr)
		f, m := env.specLV(ce.Args[0], st), env.specLV(ce.Args[1], st)
		mu := m.name + m.path
		ex.guards = append(ex.guards, guardC{f.name, f.path, mu, f})
		k := lockKey(mu)
		st.heap[k] = Store(st.get(k), m.ref, Int(0))
		k = unlockKey(mu)
		st.heap[k] = Store(st.get(k), m.ref, Int(0))
	}
	for _, c := range sp.all("signal") {
		ce := c.E.(*ast.CallExpr)
		ex.signals = append(ex.signals, signalC{ce.Args[0], ce.Args[1], ce.Args[2:]})
		ex.sigEnv = env
	}
	ex.detached = len(sp.all("detached")) > 0
	if len(ex.guards) > 0 || ex.detached {
		st.heap[relKey()] = Store(st.get(relKey()), Int(0), Int(0))
		ex.assumed["a lock protects the fields named by the guard clause of each function that accesses them; the order of critical sections is arbitrary"] = true
	}
	if len(ex.signals) > 0 {
		ex.assumed["what a signal channel publishes is not changed after the channel is closed"] = true
	}
	ex.concOn = len(ex.guards) > 0 || len(ex.signals) > 0 || ex.detached
	if ex.concOn {
		st.assume(Eq(Select(st.get(closedKey()), Int(0)), Int(0)))
	}
}

// endConc: locks are released when the function returns.
func (ex *Exec) endConc(st *State) {
	seen := map[string]bool{}
	for _, g := range ex.guards {
		if seen[g.mu] {
			continue
		}
		seen[g.mu] = true
		held := Select(st.get(lockKey(g.mu)), g.lv.ref)
		def := Select(st.get(unlockKey(g.mu)), g.lv.ref)
		ex.oblige(st, lockKind, "the lock is released once, as it was acquired", Eq(held, def))
	}
}

// access checks an access to a guarded field.
func (ex *Exec) access(st *State, lv *LV, write bool) {
	if !ex.concOn || ex.noGuard > 0 || st.dead || lv.kind != 'f' {
		return
	}
	for _, g := range ex.guards {
		if g.name != lv.name || g.path != lv.path {
			continue
		}
		h := Select(st.get(lockKey(g.mu)), lv.ref)
		ok := Ge(h, Int(1))
		if write {
			ok = Eq(h, Int(2))
		}
		ex.oblige(st, lockKind, "access to "+g.name+g.path+" holds the lock", Or(isFresh(lv.ref), ok))
	}
	if write {
		ex.noLateWrite(st, lv.ref)
	}
}

// noLateWrite: nothing shared is changed after the lock was released, or after
// a goroutine was started that nobody waits for.
func (ex *Exec) noLateWrite(st *State, ref *Term) {
	if !ex.concOn || ex.noGuard > 0 || len(ex.guards) == 0 && !ex.detached {
		return
	}
	ok := Eq(Select(st.get(relKey()), Int(0)), Int(0))
	if !ex.detached {
		ok = False
		for _, g := range ex.guards {
			ok = Or(ok, Eq(Select(st.get(lockKey(g.mu)), g.lv.ref), Int(2)))
		}
	}
	if ref != nil {
		ok = Or(isFresh(ref), ok)
	}
	ex.oblige(st, lockKind, "what is shared is changed in a critical section", ok)
}

// lockOp: Lock, Unlock, RLock, RUnlock.
func (ex *Exec) lockOp(fr *Frame, st *State, x ast.Expr, op string, deferred bool) {
	if !ex.concOn || len(ex.guards) == 0 {
		ex.assumed["locks are treated as no-ops: one goroutine at a time"] = true
		return
	}
	lv := ex.lval(fr, st, x)
	if st.dead {
		return
	}
	if lv.kind == 'f' && lv.path == "" && lv.name == "sync.RWMutex" || lv.kind != 'f' {
		unsup("lock %s", exprStr(x))
	}
	mu := lv.name + lv.path
	k := lockKey(mu)
	cur := Select(st.get(k), lv.ref)
	set := func(n int64) { st.heap[k] = Store(st.get(k), lv.ref, Int(n)) }
	mode := int64(2)
	if op[0] == 'R' {
		mode = 1
	}
	if deferred {
		u := unlockKey(mu)
		ex.oblige(st, lockKind, "the lock is unlocked once", Eq(Select(st.get(u), lv.ref), Int(0)))
		st.heap[u] = Store(st.get(u), lv.ref, Int(mode))
		fr.unlocks = append(fr.unlocks, lv)
		return
	}
	switch op {
	case "Lock", "RLock":
		ex.oblige(st, lockKind, "the lock is not held already", Eq(cur, Int(0)))
		set(mode)
		rel := Select(st.get(relKey()), Int(0))
		if rel != Int(0) { // others may have entered since the last release
			for _, g := range ex.guards {
				if g.mu == mu {
					v := Val{T: g.lv.T}
					for _, l := range flatten(g.lv.T) {
						v.L = append(v.L, ex.freshK("hv", l.S))
					}
					st.storeField(g.name, g.path, lv.ref, v)
				}
			}
		}
	case "Unlock", "RUnlock":
		ex.oblige(st, lockKind, "the lock is held", Eq(cur, Int(mode)))
		set(0)
		st.heap[relKey()] = Store(st.get(relKey()), Int(0), Int(1))
	}
}

// endFrame runs what the frame deferred.
func (ex *Exec) endFrame(nf *Frame, st *State, top bool) {
	for i := len(st.defers) - 1; i >= 0; i-- {
		d := st.defers[i]
		if d.fr != nf {
			continue
		}
		st.defers = st.defers[:i:i]
		if !st.dead {
			d.run(st)
		}
	}
	if top || st.dead {
		return
	}
	for _, lv := range nf.unlocks { // of an inlined function
		mu := lv.name + lv.path
		k, u := lockKey(mu), unlockKey(mu)
		def := Select(st.get(u), lv.ref)
		if def == Int(0) {
			continue
		}
		held := Select(st.get(k), lv.ref)
		ex.oblige(st, lockKind, "the lock is held", Or(Eq(def, Int(0)), Eq(held, def)))
		st.heap[k] = Store(st.get(k), lv.ref, Ite(Eq(def, Int(0)), held, Int(0)))
		st.heap[u] = Store(st.get(u), lv.ref, Int(0))
		st.heap[relKey()] = Store(st.get(relKey()), Int(0), Int(1))
	}
}

// deferCall defers a call without arguments.
func (ex *Exec) deferCall(fr *Frame, st *State, c *ast.CallExpr) {
	if len(ex.loopKs) > 0 {
		unsup("defer in a loop")
	}
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.FuncLit:
		if len(c.Args) > 0 {
			unsup("defer with arguments")
		}
		ast.Inspect(f.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				for _, v := range fr.res {
					if fr.info.Uses[id] == v {
						unsup("deferred function using a result")
					}
				}
				if id.Name == "recover" {
					unsup("recover")
				}
			}
			return true
		})
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], deferC{fr, func(st *State) { ex.callExpr(fr, st, c) }})
		return
	case *ast.Ident:
		if _, ok := fr.info.Uses[f].(*types.Builtin); ok && f.Name == "close" {
			ch := ex.eval(fr, st, c.Args[0])
			st.defers = append(st.defers[:len(st.defers):len(st.defers)], deferC{fr, func(st *State) { ex.closeChan(st, ch.L[0]) }})
			return
		}
	}
	unsup("defer")
}

func (ex *Exec) closeChan(st *State, ch *Term) {
	ex.mayPanic(st, "close of nil channel", Eq(ch, Int(0)))
	ex.mayPanic(st, "close of closed channel", ex.isClosed(st, ch))
	if st.dead {
		return
	}
	for _, s := range ex.signals {
		env := ex.sigEnv.in(st)
		ex.oblige(st, "signal", "published when the channel is closed", Imp(Eq(env.term(s.ch), ch), env.term(s.e)))
	}
	ex.setClosed(st, ch, Int(1))
}

func emptyElem(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	s, ok := c.Elem().Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

// receive from a channel of empty structs: a signal, or a semaphore.
func (ex *Exec) receive(fr *Frame, st *State, x ast.Expr) {
	t := fr.info.TypeOf(x)
	if !emptyElem(t) || !ex.concOn {
		unsup("receive from %v", t)
	}
	ch := ex.eval(fr, st, x)
	if st.dead {
		return
	}
	c := ch.L[0]
	ex.oblige(st, "signal", "a nil channel blocks forever", Not(Eq(c, Int(0))))
	for _, s := range ex.signals {
		env := ex.sigEnv.in(st)
		if env.term(s.ch) != c {
			continue
		}
		for _, l := range s.locs {
			lv := env.specLV(l, st)
			v := Val{T: lv.T}
			for _, l := range flatten(lv.T) {
				y := ex.freshK("hv", l.S)
				y.nonneg = y.nonneg || l.Kind == 'N'
				v.L = append(v.L, y)
			}
			st.storeField(lv.name, lv.path, lv.ref, v)
		}
		ex.setClosed(st, c, Int(1))
		st.assume(ex.sigEnv.in(st).term(s.e))
		return
	}
	n := Select(st.get(tokenKey()), c)
	ex.oblige(st, "signal", "the semaphore is held when it is released", Gt(n, Int(0)))
	st.heap[tokenKey()] = Store(st.get(tokenKey()), c, Sub(n, Int(1)))
}

func (ex *Exec) send(fr *Frame, st *State, s *ast.SendStmt) {
	t := fr.info.TypeOf(s.Chan)
	if !emptyElem(t) || !ex.concOn {
		unsup("send to %v", t)
	}
	ch := ex.eval(fr, st, s.Chan)
	ex.eval(fr, st, s.Value)
	if st.dead {
		return
	}
	c := ch.L[0]
	ex.oblige(st, "signal", "a nil channel blocks forever", Not(Eq(c, Int(0))))
	ex.mayPanic(st, "send on closed channel", ex.isClosed(st, c))
	if st.dead {
		return
	}
	n := Select(st.get(tokenKey()), c)
	st.heap[tokenKey()] = Store(st.get(tokenKey()), c, Add(n, Int(1)))
}
