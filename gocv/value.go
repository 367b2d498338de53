package main

// Values, heap and program state of the symbolic executor.
//
// Every Go value is a list of leaf terms given by flatten(type).  Pointers,
// interfaces, maps, channels and functions are one integer leaf; slices are
// (array id, offset, length, capacity); structs are the concatenation of
// their fields.  Objects live in named maps "F.<pkg>.<Struct>.<path>" from
// reference to leaf; slice elements in "mem.<class>" maps from array id to
// index to leaf.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

type Leaf struct {
	Path string
	S    *Sort
	Kind byte // 'R' real, 'I' int, 'N' non-negative int, 'B' bool, 'O' reference, 'A' array id, 'F' func, 'S' string
}

type Val struct {
	T types.Type
	L []*Term
}

var nilRef = Int(0)

// Unsupported is raised (as a panic) when the code leaves the subset.
type Unsupported struct{ Msg string }

func unsup(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func isFloatTP(tp *types.TypeParam) bool {
	s := tp.Constraint().Underlying().String() + " " + tp.Constraint().String()
	return strings.Contains(s, "float32") || strings.Contains(s, "float64") || strings.Contains(s, "DType")
}

func isIntTP(tp *types.TypeParam) bool {
	s := tp.Constraint().Underlying().String()
	return strings.Contains(s, "int") && !strings.Contains(s, "interface{") && !isFloatTP(tp)
}

func namedName(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		p := ""
		if n.Obj().Pkg() != nil {
			p = shortPkg(n.Obj().Pkg().Path()) + "."
		}
		return p + n.Obj().Name()
	}
	return ""
}

// typeName is a name that ignores type arguments.
func typeName(t types.Type) string {
	t = types.Unalias(t)
	if n := namedName(t); n != "" {
		return n
	}
	switch u := t.(type) {
	case *types.Pointer:
		return "*" + typeName(u.Elem())
	case *types.Slice:
		return "[]" + typeName(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeName(u.Elem()))
	case *types.Map:
		return "map[" + typeName(u.Key()) + "]" + typeName(u.Elem())
	case *types.Basic:
		return u.Name()
	case *types.TypeParam:
		if isFloatTP(u) {
			return "float"
		}
		return "tp"
	case *types.Interface:
		return "interface"
	case *types.Signature:
		return "func"
	case *types.Struct:
		return "struct"
	}
	return t.String()
}

var flatMemo = map[types.Type][]Leaf{}

func sliceLeaves() []Leaf {
	return []Leaf{{".arr", IntS, 'A'}, {".off", IntS, 'N'}, {".len", IntS, 'N'}, {".cap", IntS, 'N'}}
}

func isFloatSliceIface(t types.Type) bool { return namedName(t) == "float.Slice" }
func isFloatIface(t types.Type) bool      { return namedName(t) == "float.Float" }

func flatten(t types.Type) []Leaf {
	if r, ok := flatMemo[t]; ok {
		return r
	}
	r := flatten0(t)
	flatMemo[t] = r
	return r
}

func opaqueNamed(n string) bool {
	return strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "sync/atomic.")
}

func flatten0(t types.Type) []Leaf {
	switch n := namedName(t); {
	case n == "float.Float":
		return []Leaf{{"", RealS, 'R'}}
	case n == "float.Slice":
		return sliceLeaves()
	case opaqueNamed(n):
		return nil
	}
	switch u := types.Unalias(t).(type) {
	case *types.TypeParam:
		if isFloatTP(u) {
			return []Leaf{{"", RealS, 'R'}}
		}
		if isIntTP(u) {
			return []Leaf{{"", IntS, 'I'}}
		}
		if c := coreSlice(u); c != nil {
			return sliceLeaves()
		}
		return []Leaf{{"", IntS, 'O'}}
	case *types.Tuple:
		var r []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range flatten(u.At(i).Type()) {
				r = append(r, Leaf{fmt.Sprintf(".%d%s", i, l.Path), l.S, l.Kind})
			}
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", BoolS, 'B'}}
		case u.Info()&types.IsUnsigned != 0:
			return []Leaf{{"", IntS, 'N'}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", IntS, 'I'}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", RealS, 'R'}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", IntS, 'S'}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", IntS, 'O'}}
		}
		return []Leaf{{"", IntS, 'I'}}
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan:
		return []Leaf{{"", IntS, 'O'}}
	case *types.Signature:
		return []Leaf{{"", IntS, 'F'}}
	case *types.Slice:
		return sliceLeaves()
	case *types.Struct:
		var r []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range flatten(f.Type()) {
				r = append(r, Leaf{"." + f.Name() + l.Path, l.S, l.Kind})
			}
		}
		return r
	case *types.Array:
		if u.Len() > 64 {
			unsup("large array type %s", t)
		}
		var r []Leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range flatten(u.Elem()) {
				r = append(r, Leaf{fmt.Sprintf(".%d%s", i, l.Path), l.S, l.Kind})
			}
		}
		return r
	}
	unsup("type %s", t)
	return nil
}

func coreSlice(tp *types.TypeParam) *types.Slice {
	it, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var res *types.Slice
	for i := 0; i < it.NumEmbeddeds(); i++ {
		switch e := it.EmbeddedType(i).(type) {
		case *types.Union:
			if e.Len() == 1 {
				if s, ok := e.Term(0).Type().Underlying().(*types.Slice); ok {
					res = s
				}
			}
		case *types.Slice:
			res = e
		}
	}
	return res
}

func elemType(t types.Type) types.Type {
	if isFloatSliceIface(t) {
		return types.Typ[types.Float64]
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		if c := coreSlice(tp); c != nil {
			return c.Elem()
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Uint8]
		}
	}
	unsup("element type of %s", t)
	return nil
}

func memKeys(elem types.Type) (keys []string, leaves []Leaf) {
	leaves = flatten(elem)
	if len(leaves) == 1 && leaves[0].Path == "" {
		k := leaves[0].Kind
		if k == 'N' {
			k = 'I'
		}
		return []string{"mem." + string(k)}, leaves
	}
	base := typeName(elem)
	if _, ok := elem.Underlying().(*types.Slice); ok || isFloatSliceIface(elem) {
		base = "[]" + baseKind(elemType(elem))
	}
	for _, l := range leaves {
		keys = append(keys, "mem."+base+l.Path)
	}
	return
}

func baseKind(t types.Type) string {
	l := flatten(t)
	if len(l) == 1 && l[0].Path == "" {
		if l[0].Kind == 'N' {
			return "I"
		}
		return string(l[0].Kind)
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return "[]" + baseKind(elemType(t))
	}
	return typeName(t)
}

func zeroLeaf(l Leaf) *Term {
	switch l.S.K {
	case 'B':
		return False
	case 'R':
		return RealN(0)
	}
	if l.Kind == 'S' {
		return strTerm("")
	}
	return Int(0)
}

func zeroVal(t types.Type) Val {
	var v Val
	v.T = t
	for _, l := range flatten(t) {
		v.L = append(v.L, zeroLeaf(l))
	}
	return v
}

func strTerm(s string) *Term {
	return ctor(fmt.Sprintf("str!%q", s))
}

// ---------- constructors: injective, mutually distinct references ----------

// ctor terms are applications named "c!..." (fresh objects), "str!...",
// "fn!...", "arr!..." .  Eq decides them; see ctorEq in term.go.
func ctor(name string, args ...*Term) *Term { return App("c!"+name, IntS, args...) }

// ---------- state ----------

type State struct {
	cells  map[int]Val
	heap   map[string]*Term
	facts  []*Term
	dead   bool
	defers []deferC
}

func newState() *State {
	return &State{cells: map[int]Val{}, heap: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := &State{cells: make(map[int]Val, len(s.cells)), heap: make(map[string]*Term, len(s.heap)), dead: s.dead}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.defers = s.defers
	return n
}

func (s *State) assume(f *Term) {
	if f == True {
		return
	}
	if f == False {
		if trace > 0 {
			fmt.Fprintln(os.Stderr, "assume false", string(debug.Stack()))
		}
		s.dead = true
		return
	}
	if f.op == OAnd {
		for _, a := range f.args {
			s.assume(a)
		}
		return
	}
	for _, g := range s.facts {
		if g == f {
			return
		}
	}
	nf := Not(f)
	for _, g := range s.facts {
		if g == nf {
			s.dead = true
			return
		}
	}
	s.facts = append(s.facts, f)
}

var heapSort = map[string]*Sort{}
var heapLeaf = map[string]Leaf{}

func regHeap(key string, l Leaf, two bool) {
	if _, ok := heapSort[key]; ok {
		return
	}
	s := ArrS(l.S)
	if two {
		s = ArrS(s)
	}
	heapSort[key] = s
	heapLeaf[key] = l
}

// initial heap map
func initHeap(key string) *Term {
	l, ok := heapLeaf[key]
	if !ok {
		panic("unregistered heap key " + key)
	}
	s := heapSort[key]
	two := s.Elem.K == 'A'
	if !two && strings.HasPrefix(key, "F.") {
		bv := freshBV(IntS)
		switch {
		case l.Kind == 'A':
			return Lambda(bv, ctor("arr."+key[2:], bv))
		case strings.HasSuffix(key, ".off") && l.Kind == 'N':
			return Lambda(bv, Int(0))
		case key == "F.mat.Dense.data.len":
			return Lambda(bv, Mul(Select(rowsH0(), bv), Select(colsH0(), bv)))
		case key == "F.mat.Dense.shape.len":
			return Lambda(bv, Int(2))
		case strings.HasSuffix(key, ".cap") && l.Kind == 'N':
			lk := strings.TrimSuffix(key, ".cap") + ".len"
			regHeap(lk, l, false)
			ex := Var("H0."+key+"x", s)
			ex.attr = 'n'
			return Lambda(bv, Add(Select(initHeap(lk), bv), Select(ex, bv)))
		}
	}
	if two && strings.HasPrefix(key, "mem.[]") {
		b1, b2 := freshBV(IntS), freshBV(IntS)
		switch {
		case l.Kind == 'A':
			return Lambda(b1, Lambda(b2, ctor("row."+key, b1, b2)))
		case strings.HasSuffix(key, ".off"):
			return Lambda(b1, Lambda(b2, Int(0)))
		}
	}
	v := Var("H0."+key, s)
	switch l.Kind {
	case 'N':
		v.attr = 'n'
	case 'O', 'A', 'F':
		v.attr = 'r'
	}
	return v
}

func rowsH0() *Term { v := Var("H0.rows", ArrS(IntS)); v.attr = 'n'; return v }
func colsH0() *Term { v := Var("H0.cols", ArrS(IntS)); v.attr = 'n'; return v }

func (s *State) get(key string) *Term {
	if t, ok := s.heap[key]; ok {
		return t
	}
	t := initHeap(key)
	s.heap[key] = t
	return t
}

func (s *State) heapKeys() []string {
	var ks []string
	for k := range s.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// field access on objects
func fieldKey(structName, path string) string { return "F." + structName + path }

func (s *State) loadField(structName, path string, t types.Type, ref *Term) Val {
	v := Val{T: t}
	for _, l := range flatten(t) {
		k := fieldKey(structName, path+l.Path)
		regHeap(k, l, false)
		v.L = append(v.L, Select(s.get(k), ref))
	}
	return v
}

func (s *State) storeField(structName, path string, ref *Term, v Val) {
	for i, l := range flatten(v.T) {
		k := fieldKey(structName, path+l.Path)
		regHeap(k, l, false)
		s.heap[k] = Store(s.get(k), ref, v.L[i])
	}
}

func (s *State) loadElem(elem types.Type, arr, idx *Term) Val {
	ks, ls := memKeys(elem)
	v := Val{T: elem}
	for i, k := range ks {
		regHeap(k, ls[i], true)
		v.L = append(v.L, Select(Select(s.get(k), arr), idx))
	}
	return v
}

func (s *State) storeElem(elem types.Type, arr, idx *Term, v Val) {
	ks, ls := memKeys(elem)
	for i, k := range ks {
		regHeap(k, ls[i], true)
		m := s.get(k)
		s.heap[k] = Store(m, arr, Store(Select(m, arr), idx, v.L[i]))
	}
}

// row of an element memory
func (s *State) memRow(key string, l Leaf, arr *Term) *Term {
	regHeap(key, l, true)
	return Select(s.get(key), arr)
}

// ---------- frames ----------

type TArg struct {
	T     types.Type
	Dtype *Term
}

type Frame struct {
	fi      *FuncInfo
	info    *types.Info
	env     map[types.Object]int
	targs   map[*types.TypeParam]TArg
	res     []*types.Var
	resC    []int
	depth   int
	boxed   map[types.Object]bool
	unlocks []*LV // locks released when the function returns
}

type FuncVal struct {
	lit   *ast.FuncLit
	fr    *Frame
	fi    *FuncInfo
	obj   *types.Func
	recv  *Val
	targs map[*types.TypeParam]TArg
	T     types.Type
	std   string
}
