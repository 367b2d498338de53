package main

// Calls: builtins, conversions, standard library models, contracts, inlining.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (ex *Exec) callExpr(fr *Frame, st *State, c *ast.CallExpr) []Val {
	save := ex.pos
	defer func() { ex.pos = save }()
	ex.pos = c.Pos()
	fun := ast.Unparen(c.Fun)
	// conversions
	if tv, ok := fr.info.Types[fun]; ok && tv.IsType() {
		return []Val{ex.conversion(fr, st, c, tv.Type)}
	}
	// builtins
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := fr.info.Uses[id].(*types.Builtin); ok {
			return ex.builtin(fr, st, c, b.Name())
		}
	}
	var resT types.Type = fr.info.TypeOf(c)
	dead := func() []Val { return deadResults(resT) }

	// explicit instantiation
	base := fun
	switch x := base.(type) {
	case *ast.IndexExpr:
		if _, isFn := fr.info.TypeOf(x.X).Underlying().(*types.Signature); isFn {
			base = ast.Unparen(x.X)
		}
	case *ast.IndexListExpr:
		base = ast.Unparen(x.X)
	}
	switch x := base.(type) {
	case *ast.Ident:
		if o, ok := fr.info.Uses[x].(*types.Func); ok {
			var targs map[*types.TypeParam]TArg
			if inst, ok := fr.info.Instances[x]; ok {
				targs = ex.instArgs(fr, o, inst.TypeArgs)
			}
			args := ex.evalArgs(fr, st, c, o.Type().(*types.Signature), fr.info.TypeOf(fun))
			if st.dead {
				return dead()
			}
			return ex.callFunc(fr, st, o, nil, args, targs, resT)
		}
	case *ast.SelectorExpr:
		if sel, ok := fr.info.Selections[x]; ok {
			if sel.Kind() == types.MethodVal {
				o := sel.Obj().(*types.Func)
				if p := o.Pkg(); p != nil && (p.Path() == "sync" || p.Path() == "sync/atomic") {
					return ex.syncCall(fr, st, c, o, resT)
				}
				recv := ex.methodRecv(fr, st, x, sel, o)
				if st.dead {
					return dead()
				}
				args := ex.evalArgs(fr, st, c, o.Type().(*types.Signature), fr.info.TypeOf(fun))
				if st.dead {
					return dead()
				}
				return ex.callMethod(fr, st, o, recv, args, resT)
			}
			if sel.Kind() == types.MethodExpr {
				unsup("method expression call")
			}
		} else if o, ok := fr.info.Uses[x.Sel].(*types.Func); ok {
			if p := o.Pkg(); p != nil && p.Path() == "sync/atomic" {
				return ex.atomicCall(fr, st, c, o, resT)
			}
			var targs map[*types.TypeParam]TArg
			if inst, ok := fr.info.Instances[x.Sel]; ok {
				targs = ex.instArgs(fr, o, inst.TypeArgs)
			}
			args := ex.evalArgs(fr, st, c, o.Type().(*types.Signature), fr.info.TypeOf(fun))
			if st.dead {
				return dead()
			}
			return ex.callFunc(fr, st, o, nil, args, targs, resT)
		}
	}
	// function value
	f := ex.eval(fr, st, fun)
	sig, ok := fr.info.TypeOf(fun).Underlying().(*types.Signature)
	if !ok {
		unsup("call of %v", fr.info.TypeOf(fun))
	}
	args := ex.evalArgs(fr, st, c, sig, sig)
	if st.dead {
		return dead()
	}
	return ex.callValue(fr, st, f.L[0], sig, args, resT)
}

func deadResults(t types.Type) []Val {
	if t == nil {
		return nil
	}
	if tt, ok := t.(*types.Tuple); ok {
		var r []Val
		for i := 0; i < tt.Len(); i++ {
			r = append(r, zeroVal(tt.At(i).Type()))
		}
		return r
	}
	return []Val{zeroVal(t)}
}

func recvTypeName(o *types.Func) string {
	r := o.Type().(*types.Signature).Recv()
	if r == nil {
		return ""
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// The ghost row ghost.join holds, for the function under verification, the
// number of goroutines started and not yet waited for (0) and the WaitGroup
// counter (1).
func (ex *Exec) joinAt(st *State, i int64) *Term {
	regHeap("ghost.join", leafI, false)
	return Select(st.get("ghost.join"), Int(i))
}

func (ex *Exec) joinSet(st *State, i int64, v *Term) {
	regHeap("ghost.join", leafI, false)
	st.heap["ghost.join"] = Store(st.get("ghost.join"), Int(i), v)
}

const joinAssume = "goroutines joined by a WaitGroup are run one after another at the point they are started (no interleaving inside them)"

func (ex *Exec) waitGroup(st *State, op string, n *Term) {
	ex.assumed[joinAssume] = true
	c := ex.joinAt(st, 1)
	switch op {
	case "Add", "Done":
		c = Add(c, n)
		ex.mayPanic(st, "negative WaitGroup counter", Lt(c, Int(0)))
		ex.joinSet(st, 1, c)
	case "Wait":
		ex.oblige(st, "ensures", "the WaitGroup counter returns to zero", Eq(c, Int(0)))
		ex.joinSet(st, 0, Int(0))
	}
}

// goStmt runs the goroutine at the point it is started; checkJoined demands
// that it has been waited for when the function returns.
func (ex *Exec) goStmt(fr *Frame, st *State, s *ast.GoStmt) {
	if ex.detached {
		// run here: it may finish at any later time, and what it does is
		// told by the channels
		ex.callExpr(fr, st, s.Call)
		if !st.dead {
			st.heap[relKey()] = Store(st.get(relKey()), Int(0), Int(1))
		}
		return
	}
	ex.assumed[joinAssume] = true
	ex.callExpr(fr, st, s.Call)
	if !st.dead {
		ex.joinSet(st, 0, Add(ex.joinAt(st, 0), Int(1)))
	}
}

func (ex *Exec) checkJoined(st *State) {
	if _, ok := st.heap["ghost.join"]; !ok || ex.joinAt(st, 0) == Int(0) {
		return
	}
	ex.oblige(st, "ensures", "every goroutine started has been waited for", Eq(ex.joinAt(st, 0), Int(0)))
}

func (ex *Exec) syncCall(fr *Frame, st *State, c *ast.CallExpr, o *types.Func, resT types.Type) []Val {
	switch o.Name() {
	case "Add", "Done", "Wait":
		if recvTypeName(o) == "WaitGroup" {
			n := Int(-1)
			if o.Name() == "Add" {
				n = ex.eval(fr, st, c.Args[0]).L[0]
			}
			ex.waitGroup(st, o.Name(), n)
			return nil
		}
	case "Lock", "Unlock", "RLock", "RUnlock":
		ex.lockOp(fr, st, ast.Unparen(c.Fun).(*ast.SelectorExpr).X, o.Name(), false)
		return nil
	case "Do":
		f := ex.eval(fr, st, c.Args[0])
		ex.callValue(fr, st, f.L[0], o.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Signature), nil, nil)
		return nil
	}
	unsup("sync call %s", o.FullName())
	return nil
}

const atomicAssume = "an atomic operation is one indivisible step"

// atomicCall models the functions of package sync/atomic on &location.
func (ex *Exec) atomicCall(fr *Frame, st *State, c *ast.CallExpr, o *types.Func, resT types.Type) []Val {
	u, ok := ast.Unparen(c.Args[0]).(*ast.UnaryExpr)
	if !ok || u.Op != token.AND {
		unsup("atomic operation on %s", exprStr(c.Args[0]))
	}
	ex.assumed[atomicAssume] = true
	lv := ex.lval(fr, st, u.X)
	if st.dead {
		return deadResults(resT)
	}
	cur := ex.load(st, lv)
	var args []*Term
	for _, a := range c.Args[1:] {
		v := ex.eval(fr, st, a)
		if st.dead {
			return deadResults(resT)
		}
		args = append(args, ex.convertAssign(st, v, lv.T).L[0])
	}
	n := o.Name()
	switch {
	case strings.HasPrefix(n, "Load"):
		return []Val{{T: resT, L: cur.L}}
	case strings.HasPrefix(n, "Store"):
		ex.store(st, lv, Val{T: lv.T, L: args})
		return nil
	case strings.HasPrefix(n, "Add"):
		v := Add(cur.L[0], args[0])
		ex.store(st, lv, Val{T: lv.T, L: []*Term{v}})
		return []Val{{T: resT, L: []*Term{v}}}
	case strings.HasPrefix(n, "CompareAndSwap"):
		eq := Eq(cur.L[0], args[0])
		ex.store(st, lv, Val{T: lv.T, L: []*Term{Ite(eq, args[1], cur.L[0])}})
		return []Val{{T: resT, L: []*Term{eq}}}
	}
	unsup("atomic operation %s", n)
	return nil
}

// The ghost row ghost.closed tells which channels are closed (1).
func closedKey() string {
	regHeap("ghost.closed", leafI, false)
	return "ghost.closed"
}

func (ex *Exec) isClosed(st *State, ch *Term) *Term {
	return Eq(Select(st.get(closedKey()), ch), Int(1))
}

func (ex *Exec) setClosed(st *State, ch, v *Term) {
	k := closedKey()
	st.heap[k] = Store(st.get(k), ch, v)
}

// methodRecv evaluates the receiver of a method call to the value the method
// is declared on, following promotions and inserting & or *.
func (ex *Exec) methodRecv(fr *Frame, st *State, x *ast.SelectorExpr, sel *types.Selection, o *types.Func) Val {
	idx := sel.Index()
	sig := o.Type().(*types.Signature)
	_, ptrRecv := sig.Recv().Type().Underlying().(*types.Pointer)
	if _, ok := sig.Recv().Type().Underlying().(*types.Interface); ok {
		ptrRecv = false
	}
	xt := fr.info.TypeOf(x.X)
	if len(idx) == 1 {
		_, xptr := xt.Underlying().(*types.Pointer)
		if isTP(xt) {
			return ex.eval(fr, st, x.X)
		}
		if ptrRecv && !xptr {
			if _, ok := xt.Underlying().(*types.Interface); ok {
				return ex.eval(fr, st, x.X)
			}
			lv := ex.lval(fr, st, x.X)
			return ex.lvPtr(lv)
		}
		v := ex.eval(fr, st, x.X)
		if !ptrRecv && xptr {
			if _, ok := sig.Recv().Type().Underlying().(*types.Interface); !ok && !st.dead {
				return ex.load(st, ex.ptrLV(st, v))
			}
		}
		return v
	}
	base := ex.lvalOrTemp(fr, st, x.X)
	cur := base
	for _, i := range idx[:len(idx)-1] {
		if st.dead {
			return zeroVal(cur.T)
		}
		t := cur.T
		if _, ok := t.Underlying().(*types.Pointer); ok {
			cur = ex.ptrLV(st, ex.load(st, cur))
			t = cur.T
		}
		su, ok := t.Underlying().(*types.Struct)
		if !ok {
			unsup("promotion through %v", t)
		}
		cur = ex.fieldLV(cur, su.Field(i), nil)
	}
	_, curPtr := cur.T.Underlying().(*types.Pointer)
	_, curI := cur.T.Underlying().(*types.Interface)
	switch {
	case curI:
		return ex.load(st, cur)
	case ptrRecv && !curPtr:
		return ex.lvPtr(cur)
	case !ptrRecv && curPtr:
		return ex.load(st, ex.ptrLV(st, ex.load(st, cur)))
	}
	return ex.load(st, cur)
}

// lvPtr is the address of a location; sub-objects embedded at offset in an
// object are addressed by a constructor over the outer reference.
func (ex *Exec) lvPtr(lv *LV) Val {
	if lv.kind == 'f' && lv.path == "" {
		return Val{T: types.NewPointer(lv.T), L: []*Term{lv.ref}}
	}
	if lv.kind == 'f' && len(flatten(lv.T)) == 0 {
		return Val{T: types.NewPointer(lv.T), L: []*Term{ctor("sub."+lv.name+lv.path, lv.ref)}}
	}
	unsup("address of a nested location (%s%s)", lv.name, lv.path)
	return Val{}
}

func (ex *Exec) evalArgs(fr *Frame, st *State, c *ast.CallExpr, sig *types.Signature, inst types.Type) []Val {
	isig := sig
	if s, ok := inst.(*types.Signature); ok {
		isig = s
	}
	np := sig.Params().Len()
	var raw []Val
	if len(c.Args) == 1 && np > 1 {
		raw = ex.evalMulti(fr, st, c.Args[0])
	} else {
		for _, a := range c.Args {
			raw = append(raw, ex.eval(fr, st, a))
			if st.dead {
				return nil
			}
		}
	}
	if st.dead {
		return nil
	}
	pt := func(i int) types.Type { return isig.Params().At(i).Type() }
	var out []Val
	if sig.Variadic() && !c.Ellipsis.IsValid() {
		for i := 0; i < np-1; i++ {
			out = append(out, ex.convertAssign(st, raw[i], pt(i)))
		}
		vt := pt(np - 1)
		et := elemType(vt)
		extra := raw[np-1:]
		if len(extra) == 0 {
			out = append(out, zeroVal(vt))
		} else {
			s := ex.newArray(st, et, Int(int64(len(extra))))
			for i, v := range extra {
				st.storeElem(et, s.L[0], Int(int64(i)), ex.convertAssign(st, v, et))
			}
			out = append(out, Val{T: vt, L: s.L})
		}
		return out
	}
	for i := range raw {
		out = append(out, ex.convertAssign(st, raw[i], pt(i)))
	}
	return out
}

func (ex *Exec) conversion(fr *Frame, st *State, c *ast.CallExpr, t types.Type) Val {
	v := ex.eval(fr, st, c.Args[0])
	if st.dead {
		return zeroVal(t)
	}
	return ex.convert(st, v, t)
}

func (ex *Exec) convert(st *State, v Val, t types.Type) Val {
	lf := flatten(t)
	if len(lf) == 1 && len(v.L) == 1 {
		if _, isI := t.Underlying().(*types.Interface); !isI || isTP(t) {
			s := v.L[0].sort
			switch {
			case lf[0].S == s:
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					if vb, ok := v.T.Underlying().(*types.Basic); ok && vb.Info()&types.IsString == 0 {
						return Val{T: t, L: []*Term{App("u.string", IntS, v.L[0])}}
					}
				}
				return Val{T: t, L: v.L}
			case lf[0].S == RealS && s == IntS:
				return Val{T: t, L: []*Term{ToReal(v.L[0])}}
			case lf[0].S == IntS && s == RealS:
				if n := ceilQuo(v.L[0]); n != nil {
					return Val{T: t, L: []*Term{n}}
				}
				return Val{T: t, L: []*Term{App("u.trunc", IntS, v.L[0])}}
			}
		}
	}
	return ex.convertAssign(st, v, t)
}

func (ex *Exec) builtin(fr *Frame, st *State, c *ast.CallExpr, name string) []Val {
	rt := fr.info.TypeOf(c)
	one := func(x *Term) []Val { return []Val{{T: rt, L: []*Term{x}}} }
	switch name {
	case "len", "cap":
		at := fr.info.TypeOf(c.Args[0])
		v := ex.eval(fr, st, c.Args[0])
		if st.dead {
			return one(Int(0))
		}
		switch u := at.Underlying().(type) {
		case *types.Array:
			return one(Int(u.Len()))
		case *types.Map:
			t := App("u.maplen", IntS, v.L[0])
			t.nonneg = true
			return one(t)
		case *types.Basic:
			t := App("u.strlen", IntS, v.L[0])
			t.nonneg = true
			return one(t)
		}
		if len(v.L) != 4 {
			unsup("len of %v", at)
		}
		if name == "len" {
			return one(v.L[2])
		}
		return one(v.L[3])
	case "panic":
		ex.eval(fr, st, c.Args[0])
		ex.mayPanic(st, "panic", True)
		st.dead = true
		return nil
	case "new":
		t := fr.info.TypeOf(c.Args[0])
		return []Val{ex.allocObj(fr, st, t, zeroVal(t))}
	case "make":
		t := fr.info.TypeOf(c.Args[0])
		switch u := t.Underlying().(type) {
		case *types.Slice:
			n := ex.eval(fr, st, c.Args[1]).L[0]
			cp := n
			if len(c.Args) > 2 {
				cp = ex.eval(fr, st, c.Args[2]).L[0]
			}
			if st.dead {
				return []Val{zeroVal(t)}
			}
			ex.mayPanic(st, "makeslice", Not(And(Ge(n, Int(0)), Le(n, cp))))
			s := ex.newArray(st, u.Elem(), n)
			s.L[3] = cp
			s.T = t
			return []Val{s}
		case *types.Map:
			ref := ex.newRef()
			ex.newMap(st, ref, t)
			return []Val{{T: t, L: []*Term{ref}}}
		}
		if _, ok := t.Underlying().(*types.Chan); ok {
			for _, a := range c.Args[1:] {
				ex.eval(fr, st, a)
			}
			if st.dead {
				return []Val{zeroVal(t)}
			}
			ref := ex.newRef()
			ex.setClosed(st, ref, Int(0))
			return []Val{{T: t, L: []*Term{ref}}}
		}
		unsup("make %v", t)
	case "close":
		ch := ex.eval(fr, st, c.Args[0])
		if st.dead {
			return nil
		}
		ex.closeChan(st, ch.L[0])
		return nil
	case "append":
		return []Val{ex.appendB(fr, st, c, rt)}
	case "copy":
		d := ex.eval(fr, st, c.Args[0])
		s := ex.eval(fr, st, c.Args[1])
		if st.dead {
			return one(Int(0))
		}
		n := Ite(Le(d.L[2], s.L[2]), d.L[2], s.L[2])
		if ex.quickTrue(st, Le(d.L[2], s.L[2])) {
			n = d.L[2]
		} else if ex.quickTrue(st, Le(s.L[2], d.L[2])) {
			n = s.L[2]
		}
		ex.copyRange(st, elemType(d.T), d.L[0], d.L[1], s.L[0], s.L[1], n)
		return one(n)
	case "min", "max":
		v := ex.eval(fr, st, c.Args[0]).L[0]
		for _, a := range c.Args[1:] {
			w := ex.eval(fr, st, a).L[0]
			if w.sort != v.sort {
				v, w = toReal(v), toReal(w)
			}
			if name == "min" {
				v = Ite(Lt(w, v), w, v)
			} else {
				v = Ite(Gt(w, v), w, v)
			}
		}
		return one(v)
	case "delete":
		m := ex.eval(fr, st, c.Args[0])
		k := ex.eval(fr, st, c.Args[1])
		if st.dead {
			return nil
		}
		mt := fr.info.TypeOf(c.Args[0])
		hk := "map." + typeName(mt) + ".has"
		regHeap(hk, Leaf{"", BoolS, 'B'}, true)
		mm := st.get(hk)
		st.heap[hk] = Store(mm, m.L[0], Store(Select(mm, m.L[0]), k.L[0], False))
		return nil
	case "clear":
		v := ex.eval(fr, st, c.Args[0])
		if len(v.L) == 4 && !st.dead {
			et := elemType(v.T)
			ks, ls := memKeys(et)
			for i, k := range ks {
				regHeap(k, ls[i], true)
				m := st.get(k)
				row := Select(m, v.L[0])
				b := freshBV(IntS)
				st.heap[k] = Store(m, v.L[0], Lambda(b, Ite(And(Ge(b, v.L[1]), Lt(b, Add(v.L[1], v.L[2]))), zeroLeaf(ls[i]), Select(row, b))))
			}
			return nil
		}
	}
	unsup("builtin %s", name)
	return nil
}

func (ex *Exec) copyRange(st *State, et types.Type, darr, doff, sarr, soff, n *Term) {
	if n == Int(0) {
		return
	}
	ks, ls := memKeys(et)
	for i, k := range ks {
		regHeap(k, ls[i], true)
		m := st.get(k)
		src := Select(m, sarr)
		row := Select(m, darr)
		if c, ok := n.isInt(); ok && c <= 4 && c >= 0 {
			nr := row
			for j := int64(0); j < c; j++ {
				nr = Store(nr, Add(doff, Int(j)), Select(src, Add(soff, Int(j))))
			}
			st.heap[k] = Store(m, darr, nr)
			continue
		}
		b := freshBV(IntS)
		in := And(Ge(b, doff), Lt(b, Add(doff, n)))
		st.heap[k] = Store(m, darr, Lambda(b, Ite(in, Select(src, Add(Sub(b, doff), soff)), Select(row, b))))
	}
}

func (ex *Exec) appendB(fr *Frame, st *State, c *ast.CallExpr, rt types.Type) Val {
	s := ex.eval(fr, st, c.Args[0])
	if isNilT(s.T) {
		s = zeroVal(rt)
	}
	if st.dead {
		return zeroVal(rt)
	}
	et := elemType(rt)
	var src Val
	if c.Ellipsis.IsValid() {
		src = ex.eval(fr, st, c.Args[1])
		if isNilT(src.T) {
			src = zeroVal(rt)
		}
	} else {
		var vals []Val
		for _, a := range c.Args[1:] {
			vals = append(vals, ex.convertAssign(st, ex.eval(fr, st, a), et))
			if st.dead {
				return zeroVal(rt)
			}
		}
		if len(vals) == 0 {
			return s
		}
		tmp := ex.newArray(st, et, Int(int64(len(vals))))
		for i, v := range vals {
			st.storeElem(et, tmp.L[0], Int(int64(i)), v)
		}
		src = tmp
	}
	if st.dead {
		return zeroVal(rt)
	}
	return ex.appendSlices(st, s, src, et, rt)
}

func (ex *Exec) appendSlices(st *State, s, src Val, et, rt types.Type) Val {
	n := src.L[2]
	nl := Add(s.L[2], n)
	if n == Int(0) {
		return s
	}
	fits := Le(nl, s.L[3])
	d := -1
	if c, ok := s.L[3].isInt(); ok && c == 0 {
		if ex.quickTrue(st, Gt(n, Int(0))) {
			d = 0
		} else {
			// appending possibly nothing to an empty slice: same elements either way
			d = 0
		}
	} else {
		d = ex.decide(st, fits)
	}
	if trace > 1 {
		fmt.Println("append", d, fits)
	}
	if d == 1 {
		ex.copyRange(st, et, s.L[0], Add(s.L[1], s.L[2]), src.L[0], src.L[1], n)
		return Val{T: rt, L: []*Term{s.L[0], s.L[1], nl, s.L[3]}}
	}
	fresh := ex.newArray(st, et, nl)
	ncap := ex.freshK("cap", IntS)
	ncap.nonneg = true
	st.assume(Ge(ncap, nl))
	ex.copyRange(st, et, fresh.L[0], Int(0), s.L[0], s.L[1], s.L[2])
	ex.copyRange(st, et, fresh.L[0], s.L[2], src.L[0], src.L[1], n)
	if d == 0 {
		return Val{T: rt, L: []*Term{fresh.L[0], Int(0), nl, ncap}}
	}
	// conditionally in place
	ks, ls := memKeys(et)
	for i, k := range ks {
		regHeap(k, ls[i], true)
		m := st.get(k)
		row := Select(m, s.L[0])
		srow := Select(m, src.L[0])
		b := freshBV(IntS)
		lo := Add(s.L[1], s.L[2])
		in := And(fits, Ge(b, lo), Lt(b, Add(lo, n)))
		st.heap[k] = Store(m, s.L[0], Lambda(b, Ite(in, Select(srow, Add(Sub(b, lo), src.L[1])), Select(row, b))))
	}
	return Val{T: rt, L: []*Term{Ite(fits, s.L[0], fresh.L[0]), Ite(fits, s.L[1], Int(0)), nl, Ite(fits, s.L[3], ncap)}}
}

// callMethod dispatches a method call.
func (ex *Exec) callMethod(fr *Frame, st *State, o *types.Func, recv Val, args []Val, resT types.Type) []Val {
	rt := recv.T
	_, isI := rt.Underlying().(*types.Interface)
	tp := isTP(rt)
	if isI || tp {
		if isFloatIface(rt) || isFloatSliceIface(rt) {
			return ex.floatIfaceCall(st, o, recv, args, resT)
		}
		if tp {
			if it, ok := rt.(*types.TypeParam).Constraint().Underlying().(*types.Interface); !ok || it.NumMethods() == 0 {
				unsup("method on type parameter %v", rt)
			}
		}
		ex.mayPanic(st, "nil receiver", Eq(recv.L[0], nilRef))
		// promoted through an embedded interface of a known type?
		if in, n := ex.inner(st, recv.L[0]); in != nil && n != "ag.Operator" {
			if f := ex.promoted(n, o.Name()); f != nil {
				ex.mayPanic(st, "nil receiver", Eq(in, nilRef))
				return ex.callMethod(fr, st, o, Val{T: f.Type(), L: []*Term{in}}, args, resT)
			}
		}
		// dynamic type known?
		if m := ex.devirt(st, rt, recv.L[0], o.Name()); m != nil {
			return ex.callFunc(fr, st, m, &Val{T: m.Type().(*types.Signature).Recv().Type(), L: []*Term{ptrOfIface(recv.L[0])}}, args, nil, resT)
		}
		if m, r := ex.devirtPromoted(st, recv.L[0], o.Name()); m != nil {
			return ex.callMethod(fr, st, m, r, args, resT)
		}
		if recv.L[0].op == OIte {
			return ex.splitRecv(fr, st, o, recv, args, resT)
		}
		key := ifaceKey(rt, o)
		if sp := ex.specs.ByKey[key]; sp != nil {
			return ex.applySpec(fr, st, sp, nil, o.Type().(*types.Signature), &recv, args, nil, resT)
		}
		key = funcKey(o)
		if sp := ex.specs.ByKey[key]; sp != nil {
			return ex.applySpec(fr, st, sp, nil, o.Type().(*types.Signature), &recv, args, nil, resT)
		}
		unsup("no contract for interface method %s", key)
	}
	return ex.callFunc(fr, st, o, &recv, args, nil, resT)
}

func (ex *Exec) splitRecv(fr *Frame, st *State, o *types.Func, recv Val, args []Val, resT types.Type) []Val {
	r := recv.L[0]
	return ex.splitCall(st, r.args[0], func(s *State, side int) []Val {
		return ex.callMethod(fr, s, o, Val{T: recv.T, L: []*Term{r.args[1+side]}}, args, resT)
	}, resT)
}

// splitCall runs a call under c and under not c and merges the results.
func (ex *Exec) splitCall(st *State, c *Term, f func(s *State, side int) []Val, resT types.Type) []Val {
	switch ex.decide(st, c) {
	case 1:
		return f(st, 0)
	case 0:
		return f(st, 1)
	}
	a, b := st.clone(), st.clone()
	assumeSplit(a, c)
	assumeSplit(b, Not(c))
	va := f(a, 0)
	vb := f(b, 1)
	if a.dead && b.dead {
		st.dead = true
		return deadResults(resT)
	}
	m, mc := ex.mergeC(a, b)
	*st = *m
	if a.dead {
		return vb
	}
	if b.dead {
		return va
	}
	var out []Val
	for i := range va {
		out = append(out, iteVal(mc, va[i], vb[i]))
	}
	return out
}

// devirtPromoted finds a method promoted through embedded structs of the
// dynamic type and the embedded value it is called on.
func (ex *Exec) devirtPromoted(st *State, ref *Term, name string) (*types.Func, Val) {
	tg := ex.tag(st, ref)
	if !isCtor(tg) || !strings.HasPrefix(tg.name, "c!type.*") {
		return nil, Val{}
	}
	nt := ex.prog.Named[strings.TrimPrefix(tg.name, "c!type.*")]
	if nt == nil || (isCtor(ref) && strings.HasPrefix(ref.name, "c!tnil.")) {
		return nil, Val{}
	}
	obj, ix, _ := types.LookupFieldOrMethod(types.NewPointer(nt), true, nt.Obj().Pkg(), name)
	m, ok := obj.(*types.Func)
	if !ok || len(ix) < 2 {
		return nil, Val{}
	}
	cur := &LV{kind: 'f', T: nt, ref: ref, name: structNameOf(nt)}
	for _, i := range ix[:len(ix)-1] {
		t := cur.T
		if _, ok := t.Underlying().(*types.Pointer); ok {
			cur = ex.ptrLV(st, ex.load(st, cur))
			t = cur.T
		}
		su, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, Val{}
		}
		cur = ex.fieldLV(cur, su.Field(i), nil)
	}
	_, curPtr := cur.T.Underlying().(*types.Pointer)
	_, curI := cur.T.Underlying().(*types.Interface)
	_, ptrRecv := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer)
	switch {
	case curI, ptrRecv && curPtr, !ptrRecv && !curPtr:
		return m, ex.load(st, cur)
	case ptrRecv:
		return m, ex.lvPtr(cur)
	}
	return m, ex.load(st, ex.ptrLV(st, ex.load(st, cur)))
}

// promoted: the embedded field of *n whose method name is called.
func (ex *Exec) promoted(n, name string) *types.Var {
	nt := ex.prog.Named[n]
	obj, ix, _ := types.LookupFieldOrMethod(types.NewPointer(nt), true, nt.Obj().Pkg(), name)
	if _, ok := obj.(*types.Func); !ok || len(ix) != 2 {
		return nil
	}
	f := fieldsOf(nt)[ix[0]]
	if f.Name() != wrapped[n] {
		return nil
	}
	return f
}

func ifaceKey(t types.Type, o *types.Func) string {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		return namedName(tp.Constraint()) + "." + o.Name()
	}
	return namedName(t) + "." + o.Name()
}

// devirt finds the method of the dynamic type when it is determined.
func (ex *Exec) devirt(st *State, static types.Type, ref *Term, name string) *types.Func {
	n := ""
	if namedName(static) == "mat.Matrix" {
		n = "mat.Dense"
	} else {
		tg := ex.tag(st, ref)
		if isCtor(tg) && strings.HasPrefix(tg.name, "c!type.*") {
			n = strings.TrimPrefix(tg.name, "c!type.*")
		} else if isCtor(tg) && strings.HasPrefix(tg.name, "c!type.") {
			return nil
		}
	}
	if n == "" {
		return nil
	}
	nt := ex.prog.Named[n]
	if nt == nil {
		return nil
	}
	obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(nt), true, nt.Obj().Pkg(), name)
	if m, ok := obj.(*types.Func); ok {
		// promoted methods are not resolved here
		if r := m.Type().(*types.Signature).Recv(); r != nil {
			if p, ok := r.Type().(*types.Pointer); ok && namedName(p.Elem()) == n {
				return m
			}
		}
	}
	return nil
}

func (ex *Exec) floatIfaceCall(st *State, o *types.Func, recv Val, args []Val, resT types.Type) []Val {
	one := func(l ...*Term) []Val { return []Val{{T: resT, L: l}} }
	ex.assumed["float.Float and float.Slice values are treated as reals and slices of reals; conversions between float32 and float64 are exact"] = true
	if isFloatIface(recv.T) {
		switch o.Name() {
		case "F32", "F64":
			return one(recv.L[0])
		case "BitSize":
			return one(ex.fresh("bits", IntS))
		}
	} else {
		switch o.Name() {
		case "F32", "F64":
			return one(recv.L...)
		case "Len":
			return one(recv.L[2])
		case "BitSize":
			return one(ex.fresh("bits", IntS))
		case "Equals", "Copy", "Append", "Slice":
		}
	}
	unsup("float method %s", o.Name())
	return nil
}

// dtypeBinding gives the receiver's type parameters.
func (ex *Exec) recvTArgs(fr *Frame, st *State, fi *FuncInfo, recv *Val) map[*types.TypeParam]TArg {
	r := map[*types.TypeParam]TArg{}
	sig := fi.Obj.Type().(*types.Signature)
	tps := sig.RecvTypeParams()
	if tps == nil || tps.Len() == 0 {
		return r
	}
	// static type arguments of the receiver value
	t := recv.T
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	var static *types.TypeList
	if n, ok := types.Unalias(t).(*types.Named); ok {
		static = n.TypeArgs()
	}
	isDense := namedName(t) == "mat.Dense"
	for i := 0; i < tps.Len(); i++ {
		tp := tps.At(i)
		if isDense {
			r[tp] = TArg{T: tp, Dtype: ex.dtypeRef(st, recv.L[0])}
			continue
		}
		if static != nil && i < static.Len() {
			a := ex.targ(fr, static.At(i))
			if a.T == nil {
				a.T = tp
			}
			r[tp] = a
		} else {
			r[tp] = TArg{T: tp}
		}
	}
	return r
}

func (ex *Exec) callFunc(fr *Frame, st *State, o *types.Func, recv *Val, args []Val, targs map[*types.TypeParam]TArg, resT types.Type) []Val {
	fi := ex.prog.ByObj[o.Origin()]
	if fi == nil {
		return ex.stdCall(fr, st, o, recv, args, resT)
	}
	if r, ok := ex.special(fr, st, fi, recv, args, targs, resT); ok {
		return r
	}
	if recv != nil {
		ta := ex.recvTArgs(fr, st, fi, recv)
		if targs == nil {
			targs = ta
		} else {
			for k, v := range ta {
				targs[k] = v
			}
		}
	}
	if sp := ex.specs.ByKey[fi.Key]; sp != nil && !sp.Inline && !sp.Open {
		return ex.applySpec(fr, st, sp, fi, fi.Obj.Type().(*types.Signature), recv, args, targs, resT)
	}
	return ex.inline(fr, st, fi, recv, args, targs, resT)
}

// special models of the float package (interfaces over two element types).
func (ex *Exec) special(fr *Frame, st *State, fi *FuncInfo, recv *Val, args []Val, targs map[*types.TypeParam]TArg, resT types.Type) ([]Val, bool) {
	switch fi.Key {
	case "float.Interface", "float.ValueOf":
		return []Val{{T: resT, L: []*Term{toReal(args[0].L[0])}}}, true
	case "float.Make", "float.SliceValueOf":
		return []Val{{T: resT, L: args[0].L}}, true
	case "float.SliceInterface":
		return []Val{{T: resT, L: args[0].L}}, true
	case "ag.(*Operator).Run":
		if ex.concOn {
			break
		}
		// asynchronous runs: Value waits for the forward pass, so that every
		// reader sees the value as if it had been computed here
		ex.assumed["an operator run asynchronously is run at the point where it is started (Operator.Value waits for it)"] = true
		if f := ex.prog.Funcs["ag.(*Operator).executeForward"]; f != nil {
			ex.inline(fr, st, f, recv, nil, nil, nil)
			return []Val{*recv}, true
		}
	case "ag.(*Operator).Value":
		if in := ex.innerOf(st, recv.L[0], "ag.Operator"); in != nil {
			return []Val{{T: resT, L: []*Term{in}}}, true
		}
		if !ex.concOn {
			return ex.inline(fr, st, fi, recv, args, targs, resT), true
		}
	}
	return nil, false
}

func boxedVars(fi *ast.FuncDecl, info *types.Info) map[types.Object]bool {
	r := map[types.Object]bool{}
	root := func(e ast.Expr) types.Object {
		for {
			switch x := ast.Unparen(e).(type) {
			case *ast.Ident:
				return info.Uses[x]
			default:
				return nil
			}
		}
	}
	ast.Inspect(fi, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.UnaryExpr:
			if x.Op.String() == "&" {
				if o := root(x.X); o != nil {
					r[o] = true
				}
			}
		case *ast.SelectorExpr:
			if sel, ok := info.Selections[x]; ok && sel.Kind() == types.MethodVal && len(sel.Index()) == 1 {
				sig := sel.Obj().Type().(*types.Signature)
				if _, p := sig.Recv().Type().Underlying().(*types.Pointer); p {
					if o := root(x.X); o != nil {
						if _, isP := o.Type().Underlying().(*types.Pointer); !isP {
							if _, isI := o.Type().Underlying().(*types.Interface); !isI && !opaqueNamed(namedName(o.Type())) {
								r[o] = true
							}
						}
					}
				}
			}
		}
		return true
	})
	return r
}

var boxedMemo = map[*ast.FuncDecl]map[types.Object]bool{}

func (ex *Exec) newFrame(fi *FuncInfo, targs map[*types.TypeParam]TArg, depth int) *Frame {
	b, ok := boxedMemo[fi.Decl]
	if !ok {
		b = boxedVars(fi.Decl, fi.Pkg.Info)
		boxedMemo[fi.Decl] = b
	}
	return &Frame{fi: fi, info: fi.Pkg.Info, env: map[types.Object]int{}, targs: targs, depth: depth, boxed: b}
}

func (ex *Exec) bindParams(fr *Frame, st *State, ft *ast.FuncType, recvF *ast.FieldList, recv *Val, args []Val) {
	if recvF != nil && len(recvF.List) == 1 && len(recvF.List[0].Names) == 1 && recv != nil {
		if o := fr.info.Defs[recvF.List[0].Names[0]]; o != nil {
			ex.declare(fr, st, o, *recv)
		}
	}
	i := 0
	for _, f := range ft.Params.List {
		if len(f.Names) == 0 {
			i++
			continue
		}
		for _, n := range f.Names {
			if o := fr.info.Defs[n]; o != nil && n.Name != "_" {
				ex.declare(fr, st, o, ex.convertAssign(st, args[i], o.Type()))
			}
			i++
		}
	}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			if len(f.Names) == 0 {
				t := fr.info.TypeOf(f.Type)
				fr.res = append(fr.res, types.NewVar(0, nil, "", t))
				fr.resC = append(fr.resC, 0)
				continue
			}
			for _, n := range f.Names {
				o, _ := fr.info.Defs[n].(*types.Var)
				if o == nil {
					o = types.NewVar(0, nil, n.Name, fr.info.TypeOf(f.Type))
				}
				ex.declare(fr, st, o, zeroVal(o.Type()))
				fr.res = append(fr.res, o)
				fr.resC = append(fr.resC, fr.env[o])
			}
		}
	}
	if fr.resC != nil {
		named := false
		for _, c := range fr.resC {
			if c != 0 {
				named = true
			}
		}
		if !named {
			fr.resC = nil
		}
	}
}

func (ex *Exec) inline(fr *Frame, st *State, fi *FuncInfo, recv *Val, args []Val, targs map[*types.TypeParam]TArg, resT types.Type) []Val {
	if fi.Decl.Body == nil {
		unsup("%s has no Go body and no contract", fi.Key)
	}
	ex.depth++
	defer func() { ex.depth-- }()
	if ex.depth > 14 {
		unsup("inlining too deep at %s", fi.Key)
	}
	ex.inlined[fi.Key] = true
	nf := ex.newFrame(fi, targs, fr.depth+1)
	ex.bindParams(nf, st, fi.Decl.Type, fi.Decl.Recv, recv, args)
	return ex.runBody(nf, st, fi.Decl.Body, resT)
}

func (ex *Exec) runBody(nf *Frame, st *State, body *ast.BlockStmt, resT types.Type) []Val {
	o := ex.block(nf, st, body.List)
	rets := o.rets
	if o.normal != nil && !o.normal.dead {
		var vals []Val
		for _, c := range nf.resC {
			vals = append(vals, o.normal.cells[c])
		}
		rets = append(rets, Ret{o.normal, vals})
	}
	for _, r := range rets {
		ex.endFrame(nf, r.st, false)
	}
	return ex.mergeRets(nf, st, rets, resT)
}

func (ex *Exec) mergeRets(nf *Frame, st *State, rets []Ret, resT types.Type) []Val {
	var live []Ret
	for _, r := range rets {
		if !r.st.dead {
			live = append(live, r)
		}
	}
	if len(live) == 0 {
		*st = State{cells: st.cells, heap: st.heap, facts: st.facts, dead: true}
		return deadResults(resT)
	}
	n := len(live[0].vals)
	cells := make([]int, n)
	for i := range cells {
		cells[i] = ex.newCell()
	}
	var ss []*State
	for _, r := range live {
		for i, v := range r.vals {
			r.st.cells[cells[i]] = v
		}
		ss = append(ss, r.st)
	}
	// later returns were reached under the negation of earlier ones: merge from the end
	m := ss[len(ss)-1]
	for i := len(ss) - 2; i >= 0; i-- {
		m = ex.merge(ss[i], m)
	}
	if m != st {
		*st = *m
	}
	var out []Val
	for i := range cells {
		out = append(out, st.cells[cells[i]])
		delete(st.cells, cells[i])
	}
	// static result types of the call site
	if tt, ok := resT.(*types.Tuple); ok {
		for i := range out {
			if i < tt.Len() {
				out[i].T = tt.At(i).Type()
			}
		}
	} else if resT != nil && len(out) == 1 {
		out[0].T = resT
	}
	return out
}

func (ex *Exec) callValue(fr *Frame, st *State, f *Term, sig *types.Signature, args []Val, resT types.Type) []Val {
	if f.op == OIte {
		return ex.splitCall(st, f.args[0], func(s *State, side int) []Val {
			return ex.callValue(fr, s, f.args[1+side], sig, args, resT)
		}, resT)
	}
	if fv, ok := ex.funcs[f.name]; ok && f.op == OApp {
		if fv.lit != nil {
			env := map[types.Object]int{}
			for k, v := range fv.fr.env {
				env[k] = v
			}
			nf := &Frame{fi: fv.fr.fi, info: fv.fr.info, env: env, targs: fv.fr.targs, depth: fr.depth + 1, boxed: fv.fr.boxed}
			ex.depth++
			defer func() { ex.depth-- }()
			if ex.depth > 14 {
				unsup("inlining too deep (closure)")
			}
			ex.bindParams(nf, st, fv.lit.Type, nil, nil, args)
			return ex.runBody(nf, st, fv.lit.Body, resT)
		}
		if fv.recv != nil {
			return ex.callMethod(fr, st, fv.obj, *fv.recv, args, resT)
		}
		return ex.callFunc(fr, st, fv.obj, nil, args, fv.targs, resT)
	}
	// unknown function value: a pure function of its arguments
	ex.mayPanic(st, "nil function", Eq(f, nilRef))
	ex.assumed["function-typed arguments are pure, total functions of their arguments"] = true
	leaves := []*Term{f}
	for _, a := range args {
		leaves = append(leaves, a.L...)
	}
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := Val{T: t}
		for j, l := range flatten(t) {
			v.L = append(v.L, App(fmt.Sprintf("u.fn%d.%d.%s.%d", i, j, l.S.K2(), len(leaves)), l.S, leaves...))
		}
		out = append(out, v)
	}
	return out
}

func (s *Sort) K2() string { return string(s.K) }

func (ex *Exec) deferStmt(fr *Frame, st *State, s *ast.DeferStmt) {
	if x, ok := ast.Unparen(s.Call.Fun).(*ast.SelectorExpr); ok {
		if sel, ok := fr.info.Selections[x]; ok {
			if p := sel.Obj().Pkg(); p != nil && p.Path() == "sync" {
				if o, ok := sel.Obj().(*types.Func); ok && recvTypeName(o) == "WaitGroup" && o.Name() == "Done" {
					ex.waitGroup(st, "Done", Int(-1))
					return
				}
				if o, ok := sel.Obj().(*types.Func); ok && (o.Name() == "Unlock" || o.Name() == "RUnlock") {
					ex.lockOp(fr, st, x.X, o.Name(), true)
					return
				}
				unsup("defer of %s", exprStr(x))
			}
		}
	}
	ex.deferCall(fr, st, s.Call)
}

// ceilQuo is the integer meant by int(math.Ceil(float64(a)/float64(b))).
func ceilQuo(t *Term) *Term {
	up := t.op == OApp && t.name == "u.math.Ceil"
	if !up && !(t.op == OApp && t.name == "u.math.Floor") {
		return nil
	}
	ms := polyOf(t.args[0])
	if len(ms) == 0 {
		return Int(0)
	}
	var b *Term
	num := Int(0)
	for _, m := range ms {
		if !m.C.IsInt() {
			return nil
		}
		p := Num(IntS, m.C)
		var d *Term
		for _, a := range m.A {
			if a.op == OApp && a.name == "inv" && d == nil {
				if r := a.args[0]; r.op == OApp && r.name == "to_real" {
					d = r.args[0]
					continue
				}
			}
			if a.op == OApp && a.name == "to_real" {
				p = Mul(p, a.args[0])
				continue
			}
			return nil
		}
		if d == nil || b != nil && b != d {
			return nil
		}
		b = d
		num = Add(num, p)
	}
	// meant for a positive divisor; otherwise unknown
	var q *Term
	if up {
		q = Add(IDiv(num, b), Ite(Eq(IMod(num, b), Int(0)), Int(0), Int(1)))
	} else {
		q = IDiv(num, b)
	}
	return Ite(Gt(b, Int(0)), q, App("u.trunc", IntS, t))
}

// ---------- standard library ----------

var infR = func() *Term { return Var("inf!", RealS) }

func (ex *Exec) stdCall(fr *Frame, st *State, o *types.Func, recv *Val, args []Val, resT types.Type) []Val {
	key := funcKey(o)
	r1 := func(t *Term) []Val { return []Val{{T: resT, L: []*Term{t}}} }
	a := func(i int) *Term { return args[i].L[0] }
	switch key {
	case "math.Exp":
		return r1(Exp(a(0)))
	case "math.Log":
		return r1(Log(a(0)))
	case "math.Sqrt":
		return r1(Sqrt(a(0)))
	case "math.Tanh":
		return r1(App("tanh", RealS, a(0)))
	case "math.Abs":
		return r1(Abs(a(0)))
	case "math.Pow":
		return r1(Pow(a(0), a(1)))
	case "math.Max":
		return r1(Ite(Gt(a(0), a(1)), a(0), a(1)))
	case "math.Min":
		return r1(Ite(Lt(a(0), a(1)), a(0), a(1)))
	case "math.Inf":
		if n, ok := a(0).isInt(); ok {
			if n >= 0 {
				return r1(infR())
			}
			return r1(Neg(infR()))
		}
	case "math.IsNaN":
		ex.assumed["floats are finite reals: NaN does not occur"] = true
		return r1(False)
	case "math.IsInf":
		ex.assumed["floats are finite reals: infinities do not occur in inputs"] = true
		if a(0) == infR() || a(0) == Neg(infR()) {
			return r1(True)
		}
		if n, ok := a(1).isInt(); ok && n == 1 && a(0).op == OSelect && strings.HasPrefix(a(0).String(), "H0.F.") {
			return r1(Eq(App("u.isinf", IntS, a(0)), Int(1))) // a configuration value may be infinite
		}
		return r1(False)
	case "math.Sin", "math.Cos", "math.Tan", "math.Floor", "math.Ceil", "math.Round", "math.Log1p", "math.Expm1", "math.Erf", "math.Cosh", "math.Sinh", "math.Atan", "math.Mod", "math.Log2", "math.Log10", "math.Cbrt", "math.Trunc", "math.Hypot", "math.Signbit", "math.Copysign":
		var l []*Term
		for i := range args {
			l = append(l, a(i))
		}
		if key == "math.Signbit" {
			return r1(Lt(a(0), RealN(0)))
		}
		return r1(App("u."+key, RealS, l...))
	case "fmt.Errorf", "errors.New":
		return r1(ex.newRef())
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "strings.Repeat", "strings.Join", "strconv.Itoa":
		return r1(ex.fresh("str", IntS))
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "os.Exit":
		ex.mayPanic(st, "fatal", True)
		st.dead = true
		return deadResults(resT)
	case "log.Printf", "log.Println", "log.Print", "fmt.Printf", "fmt.Println", "fmt.Print":
		return deadResults(resT)
	case "errors.Is":
		return r1(App("u.errIs", BoolS, a(0), a(1)))
	}
	if sp := ex.specs.ByKey[key]; sp != nil {
		return ex.applySpec(fr, st, sp, nil, o.Type().(*types.Signature), recv, args, nil, resT)
	}
	unsup("call of %s", key)
	return nil
}
