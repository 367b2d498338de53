package zzverif

import (
	"context"
	"fmt"
	"reflect"
	"sync"
	"testing"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/gmlp"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
)

// TLeaf is a model without sub-models.
type TLeaf struct {
	nn.Module
	P      *nn.Param
	N      int
	Q      *nn.Param
	hidden *nn.Param
}

// TBase is embedded into another model.
type TBase struct {
	nn.Module
	W *nn.Param
}

// TTrav traverses its parameters itself.
type TTrav struct {
	nn.Module
	Own  []*nn.Param
	Skip *nn.Param
}

func (t *TTrav) TraverseParams(f func(*nn.Param)) {
	for _, p := range t.Own {
		f(p)
	}
}

// TPlain is not a model.
type TPlain struct {
	X *nn.Param
}

// TNode has fields of every kind.
type TNode struct {
	nn.Module
	A *nn.Param
	TBase
	Num    int
	Leaf   *TLeaf
	Val    TLeaf
	Params []*nn.Param
	Str    string
	Models []nn.Model
	Any    []any
	Leafs  []*TLeaf
	Vals   []TLeaf
	Arr    [2]*TLeaf
	PArr   [3]*nn.Param
	Fn     func()
	MapS   map[string]*nn.Param
	MapI   map[int]*TLeaf
	MapM   map[string]nn.Model
	MapB   map[bool]int
	Sync   *sync.Map
	Iface  nn.Model
	IAny   any
	Tensor mat.Tensor
	Child  *TNode
	Kids   []*TNode
	Trav   *TTrav
	Buf    *nn.Buffer
	Plain  *TPlain
	Ptr    *int
	Last   *nn.Param
}

// travGen builds random models and what their traversal must visit.
type travGen struct {
	r      *run
	all    []*nn.Param // made so far
	shared bool
	maps   bool
	travs  bool
}

// trav is the expected traversal of one model.
type trav struct {
	params []*nn.Param // with repetitions, in order
	strict []*nn.Param
	models []nn.Model // sub-models, in order (those given by pointer)
	byVal  int        // sub-models given by value
}

func (t *trav) sub(m nn.Model, o trav) {
	t.params = append(t.params, o.params...)
	if m != nil {
		t.models = append(t.models, m)
	} else {
		t.byVal++
	}
	t.models = append(t.models, o.models...)
	t.byVal += o.byVal
}

func (t *trav) param(p *nn.Param) *nn.Param {
	if p != nil {
		t.params = append(t.params, p)
		t.strict = append(t.strict, p)
	}
	return p
}

func (g *travGen) some() bool { return g.r.rnd.Intn(3) != 0 }

func (g *travGen) newParam() *nn.Param {
	if g.r.rnd.Intn(5) == 0 {
		return nil
	}
	if g.shared && len(g.all) > 0 && g.r.rnd.Intn(4) == 0 {
		return g.all[g.r.rnd.Intn(len(g.all))]
	}
	p := nn.NewParam(mat.Scalar(float64(len(g.all))))
	g.all = append(g.all, p)
	return p
}

func (g *travGen) leafVal() (TLeaf, trav) {
	var t trav
	l := TLeaf{hidden: nn.NewParam(mat.Scalar(-1.))}
	l.P = t.param(g.newParam())
	l.Q = t.param(g.newParam())
	return l, t
}

func (g *travGen) leaf() (*TLeaf, trav) {
	if g.r.rnd.Intn(5) == 0 {
		return nil, trav{}
	}
	l, t := g.leafVal()
	return &l, t
}

func (g *travGen) trav() (*TTrav, trav) {
	if !g.travs || g.r.rnd.Intn(4) == 0 {
		return nil, trav{}
	}
	m := &TTrav{Skip: nn.NewParam(mat.Scalar(-2.))}
	var t trav
	for i := g.r.rnd.Intn(3); i > 0; i-- {
		if p := g.newParam(); p != nil {
			m.Own = append(m.Own, t.param(p))
		}
	}
	return m, t
}

// model returns some model as an interface.
func (g *travGen) model(depth int, t *trav) nn.Model {
	switch g.r.rnd.Intn(7) {
	case 0:
		return nil
	case 1:
		return (*TLeaf)(nil)
	case 2:
		l, o := g.leafVal()
		t.sub(nil, o)
		return l
	case 3:
		if m, o := g.trav(); m != nil {
			t.sub(m, o)
			return m
		}
		return (*TTrav)(nil)
	case 4:
		if depth > 0 {
			n, o := g.node(depth - 1)
			t.sub(n, o)
			return n
		}
	case 5:
		return &nn.Module{}
	}
	if l, o := g.leaf(); l != nil {
		t.sub(l, o)
		return l
	}
	return nil
}

// anything returns a value of some type.
func (g *travGen) anything(depth int, t *trav) any {
	switch g.r.rnd.Intn(12) {
	case 0:
		return nil
	case 1:
		return 5
	case 2:
		return "text"
	case 3:
		return []int{1}
	case 4:
		return (*nn.Param)(nil)
	case 5:
		return (*int)(nil)
	case 6:
		return struct{ A int }{1}
	case 7:
		return TPlain{}
	case 8:
		return new(int)
	case 9:
		if p := t.param(g.newParam()); p != nil {
			return p
		}
		return (*sync.Map)(nil)
	case 10:
		return mat.Scalar(3.)
	}
	return g.model(depth, t)
}

func (g *travGen) node(depth int) (*TNode, trav) {
	var t trav
	n := &TNode{Num: 1, Str: "s", Fn: func() {}, MapB: map[bool]int{true: 1}, Ptr: new(int)}
	k := func() int { return g.r.rnd.Intn(4) }
	n.A = t.param(g.newParam())
	var b trav
	n.TBase.W = b.param(g.newParam())
	t.sub(nil, b)
	if l, o := g.leaf(); l != nil {
		n.Leaf = l
		t.sub(l, o)
	}
	v, o := g.leafVal()
	n.Val = v
	t.sub(nil, o)
	if g.some() {
		for i := k(); i > 0; i-- {
			n.Params = append(n.Params, t.param(g.newParam()))
		}
	}
	if g.some() {
		for i := k(); i > 0; i-- {
			n.Models = append(n.Models, g.model(depth, &t))
		}
	}
	if g.some() {
		for i := k() + 1; i > 0; i-- {
			n.Any = append(n.Any, g.anything(depth, &t))
		}
	}
	if g.some() {
		for i := k(); i > 0; i-- {
			l, o := g.leaf()
			n.Leafs = append(n.Leafs, l)
			if l != nil {
				t.sub(l, o)
			}
		}
	}
	if g.some() {
		for i := k(); i > 0; i-- {
			l, o := g.leafVal()
			n.Vals = append(n.Vals, l)
			t.sub(nil, o)
		}
	}
	if g.some() {
		for i := range n.Arr {
			l, o := g.leaf()
			n.Arr[i] = l
			if l != nil {
				t.sub(l, o)
			}
		}
	}
	if g.some() {
		for i := range n.PArr {
			n.PArr[i] = t.param(g.newParam())
		}
	}
	if g.maps {
		n.MapS, n.MapI, n.MapM, n.Sync = map[string]*nn.Param{}, map[int]*TLeaf{}, map[string]nn.Model{}, &sync.Map{}
		for i := k(); i > 0; i-- {
			n.MapS[fmt.Sprint(i)] = t.param(g.newParam())
		}
		for i := k(); i > 0; i-- {
			l, o := g.leaf()
			n.MapI[i] = l
			if l != nil {
				t.sub(l, o)
			}
		}
		for i := k(); i > 0; i-- {
			n.MapM[fmt.Sprint(i)] = g.model(depth, &t)
		}
		for i := k(); i > 0; i-- {
			n.Sync.Store(fmt.Sprint(i), g.anything(depth, &t))
			if l, o := g.leaf(); l != nil {
				n.Sync.Store(i, l)
				t.sub(l, o)
			}
		}
	}
	n.Iface = g.model(depth, &t)
	n.IAny = g.anything(depth, &t)
	switch g.r.rnd.Intn(3) {
	case 0:
		if p := t.param(g.newParam()); p != nil {
			n.Tensor = p
		}
	case 1:
		n.Tensor = mat.Scalar(2.)
	}
	if depth > 0 && g.some() {
		c, o := g.node(depth - 1)
		n.Child = c
		t.sub(c, o)
	}
	if depth > 0 && g.r.rnd.Intn(3) == 0 {
		for i := g.r.rnd.Intn(3); i > 0; i-- {
			if g.r.rnd.Intn(4) == 0 {
				n.Kids = append(n.Kids, nil)
				continue
			}
			c, o := g.node(depth - 1)
			n.Kids = append(n.Kids, c)
			t.sub(c, o)
		}
	}
	if m, o := g.trav(); m != nil {
		n.Trav = m
		t.sub(m, o)
	}
	if g.some() {
		n.Buf = nn.Buf(mat.Scalar(4.))
	}
	n.Last = t.param(g.newParam())
	return n, t
}

func distinct(ps []*nn.Param) []*nn.Param {
	seen := map[*nn.Param]bool{}
	var out []*nn.Param
	for _, p := range ps {
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

func names(ps []*nn.Param) []any {
	out := make([]any, len(ps))
	for i, p := range ps {
		if p == nil {
			out[i] = "nil"
		} else {
			out[i] = p.Item().F64()
		}
	}
	return out
}

// sameVisit compares a visit with the expected one.
func sameVisit(got, want []*nn.Param, ordered bool) bool {
	if len(got) != len(want) {
		return false
	}
	if ordered {
		for i := range got {
			if got[i] != want[i] {
				return false
			}
		}
		return true
	}
	cnt := map[*nn.Param]int{}
	for i := range got {
		cnt[got[i]]++
		cnt[want[i]]--
	}
	for _, c := range cnt {
		if c != 0 {
			return false
		}
	}
	return true
}

func travCase(r *run) {
	g := &travGen{r: r, shared: r.rnd.Intn(3) == 0, maps: r.rnd.Intn(2) == 0, travs: r.rnd.Intn(2) == 0}
	depth := r.rnd.Intn(3)
	m, t := g.node(depth)
	desc := fmt.Sprintf("random model %d (depth %d, maps %v, shared %v, traversers %v)", r.n, depth, g.maps, g.shared, g.travs)
	travCheck(r, desc, m, t, !g.maps, !g.travs)
	if len(t.params) > 1 && len(t.models) > 0 {
		key := fmt.Sprint(names(t.params), names(t.strict), len(t.models), t.byVal, g.maps)
		if !travSeen[key] {
			travSeen[key] = true
			travSample = fmt.Sprintf("%s: parameters %v, directly held %v, %d sub-models by pointer and %d by value", desc, names(t.params), names(t.strict), len(t.models), t.byVal)
		}
	}
}

var (
	travSeen   = map[string]bool{}
	travSample string
)

func travCheck(r *run, desc string, m nn.Model, t trav, ordered, strict bool) {
	want := distinct(t.params)
	var got []*nn.Param
	if p := catch(func() { nn.ForEachParam(m, func(p *nn.Param) { got = append(got, p) }) }); p != nil {
		r.fail("traverse", "nn.ForEachParam", "%s: panics: %v", desc, p)
		return
	}
	if !sameVisit(got, want, ordered) {
		r.fail("traverse", "nn.ForEachParam", "%s: visits %v instead of %v", desc, names(got), names(want))
		return
	}
	if strict {
		got = nil
		if p := catch(func() { nn.ForEachParamStrict(m, func(p *nn.Param) { got = append(got, p) }) }); p != nil {
			r.fail("traverse", "nn.ForEachParamStrict", "%s: panics: %v", desc, p)
			return
		}
		if w := distinct(t.strict); !sameVisit(got, w, ordered) {
			r.fail("traverse", "nn.ForEachParamStrict", "%s: visits %v instead of %v", desc, names(got), names(w))
		}
	}
	r.watchdog("nn.Parameters", desc, func() {
		var got []*nn.Param
		for p := range nn.Parameters(m)(context.Background()) {
			got = append(got, p)
		}
		if !sameVisit(got, want, ordered) {
			r.fail("traverse", "nn.Parameters", "%s: sends %v instead of %v", desc, names(got), names(want))
		}
		// A cancelled stream ends.
		ctx, cancel := context.WithCancel(context.Background())
		k := 0
		stop := r.rnd.Intn(len(want) + 1)
		ch := nn.Parameters(m)(ctx)
		for k < stop {
			if p := <-ch; ordered && p != want[k] {
				r.fail("traverse", "nn.Parameters", "%s: parameter %d is another one", desc, k)
			}
			k++
		}
		cancel()
		for range ch {
			k++
		}
		if k > len(want) {
			r.fail("traverse", "nn.Parameters", "%s: sends %d parameters instead of %d", desc, k, len(want))
		}
		got = nil
		for p := range nn.StreamParams(want)(context.Background()) {
			got = append(got, p)
		}
		if !sameVisit(got, want, true) {
			r.fail("traverse", "nn.StreamParams", "%s: sends %v instead of %v", desc, names(got), names(want))
		}
	})
	var models []nn.Model
	byVal := 0
	first := true
	if p := catch(func() {
		nn.Apply(m, func(x nn.Model) {
			if first && x != m {
				r.fail("traverse", "nn.Apply", "%s: starts with another model", desc)
			}
			if !first {
				if reflect.TypeOf(x).Kind() == reflect.Ptr {
					models = append(models, x)
				} else {
					byVal++
				}
			}
			first = false
		})
	}); p != nil {
		r.fail("traverse", "nn.Apply", "%s: panics: %v", desc, p)
		return
	}
	ok := len(models) == len(t.models) && byVal == t.byVal
	cnt := map[nn.Model]int{}
	for i := 0; ok && i < len(models); i++ {
		if ordered && models[i] != t.models[i] {
			ok = false
		}
		cnt[models[i]]++
		cnt[t.models[i]]--
	}
	for _, c := range cnt {
		ok = ok && c == 0
	}
	if !ok {
		r.fail("traverse", "nn.Apply", "%s: visits %d models and %d values instead of %d and %d (or in another order)", desc, len(models), byVal, len(t.models), t.byVal)
	}
	// ZeroGrad reaches the same parameters.
	for _, p := range want {
		p.AccGrad(mat.Scalar(1.))
	}
	nn.ZeroGrad(m)
	for _, p := range want {
		if !isNilGrad(p.Grad()) && p.Grad().Item().F64() != 0 {
			r.fail("traverse", "nn.ZeroGrad", "%s: the gradient of %v is left", desc, names([]*nn.Param{p}))
			return
		}
	}
}

// reach collects the parameters in the exported fields of v.
func reach(v reflect.Value, out *[]*nn.Param, depth int) {
	if depth > 60 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		reach(v.Elem(), out, depth+1)
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if p, ok := v.Interface().(*nn.Param); ok {
			*out = append(*out, p)
			return
		}
		reach(v.Elem(), out, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				reach(v.Field(i), out, depth+1)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			reach(v.Index(i), out, depth+1)
		}
	}
}

func travLibrary(r *run) {
	emb := embedding.New[float64](5, 3)
	for name, m := range map[string]nn.Model{
		"linear":             linear.New[float64](2, 3),
		"lstm":               lstm.New[float64](2, 3),
		"gru":                gru.New[float64](2, 3),
		"layernorm":          layernorm.New[float64](3, 0.1),
		"selfattention":      selfattention.New[float64](selfattention.Config{InputSize: 3, QuerySize: 3, KeySize: 3, ValueSize: 3, ScaleFactor: 1}),
		"multiheadattention": multiheadattention.New[float64](4, 2, false, false),
		"gmlp":               gmlp.New[float64](gmlp.Config{Dim: 2, Depth: 2, SeqLen: 3, FFMult: 2}),
		"list": &struct {
			nn.Module
			L nn.ModuleList[nn.StandardModel]
		}{L: nn.ModuleList[nn.StandardModel]{linear.New[float64](1, 2), layernorm.New[float64](2, 0.1)}},
	} {
		var want []*nn.Param
		reach(reflect.ValueOf(m), &want, 0)
		want = distinct(want)
		var got []*nn.Param
		if p := catch(func() { nn.ForEachParam(m, func(p *nn.Param) { got = append(got, p) }) }); p != nil {
			r.fail("traverse", "nn.ForEachParam", "%s: panics: %v", name, p)
			continue
		}
		if len(want) == 0 || !sameVisit(got, want, false) {
			r.fail("traverse", "nn.ForEachParam", "%s: %d parameters instead of %d", name, len(got), len(want))
		}
		n := 0
		if p := catch(func() { nn.Apply(m, func(nn.Model) { n++ }) }); p != nil || n == 0 {
			r.fail("traverse", "nn.Apply", "%s: %d models, panics: %v", name, n, p)
		}
		r.n++
	}
	// A model that traverses its parameters itself, with some to traverse.
	ys, err := emb.Encode([]int{1, 3, 1})
	if err != nil || len(ys) != 3 {
		return
	}
	for _, y := range ys {
		y.AccGrad(mat.NewDense[float64](mat.WithShape(3, 1)))
	}
	n := 0
	if p := catch(func() { nn.Apply(emb, func(nn.Model) { n++ }) }); p != nil || n != 1 {
		r.fail("traverse", "nn.Apply", "embedding table with gradients: %d models, panics: %v", n, p)
	}
	n = 0
	if p := catch(func() { nn.Apply(&TNode{Models: []nn.Model{emb}}, func(nn.Model) { n++ }) }); p != nil || n != 4 {
		r.fail("traverse", "nn.Apply", "model with an embedding table with gradients: %d models, panics: %v", n, p)
	}
	n = 0
	nn.ForEachParam(&TNode{Models: []nn.Model{nil, emb}}, func(*nn.Param) { n++ })
	if n != 2 {
		r.fail("traverse", "nn.ForEachParam", "model with an embedding table with 2 gradients: %d parameters", n)
	}
	r.n += 3
}

func TestBoundedC24(t *testing.T) {
	r := newRun(t, "C24")
	travLibrary(r)
	for i := 0; i < r.rounds(3000); i++ {
		travCase(r)
		r.n++
	}
	r.done(fmt.Sprintf("models with random contents in fields of every kind; non-trivial: at least two parameters and one sub-model, distinct by the sequence of parameters and the numbers of models | distinct %d | sample %s", len(travSeen), travSample))
}
