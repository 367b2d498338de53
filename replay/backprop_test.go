package zzverif

import (
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
)

// bpFn is the recorded function of one operator: y = sum_j c[j]*x[j] (+ x[0]*x[1] element by element).
type bpFn struct {
	n    *bpNode
	xs   []mat.Tensor
	coef []float64
	mul  bool
	skip []bool // no gradients are delivered to the operand
	d    int
	f32  bool
	nap  int
}

func (f *bpFn) Operands() []mat.Tensor { return f.xs }

func (f *bpFn) make(v []float64) mat.Matrix { return buildAs(f.f32, col(v...)) }

func (f *bpFn) Forward() (mat.Tensor, error) {
	v := make([]float64, f.d)
	vals := make([]mx, len(f.xs))
	for j, x := range f.xs {
		vals[j] = toMx(x.Value())
		for i := range v {
			v[i] += f.coef[j] * vals[j].v[i]
		}
	}
	if f.mul {
		for i := range v {
			v[i] += vals[0].v[i] * vals[1].v[i]
		}
	}
	return f.make(v), nil
}

func (f *bpFn) Backward(gy mat.Tensor) error {
	n := f.n
	atomic.AddInt64(&n.starts, 1)
	n.mu.Lock()
	n.seen = toMx(gy)
	n.early = ""
	for _, c := range n.consumers {
		if atomic.LoadInt32(&c.mustRun) == 1 && atomic.LoadInt64(&c.ends) == 0 {
			n.early = fmt.Sprintf("before its consumer n%d was done", c.id)
		}
	}
	n.mu.Unlock()
	switch f.nap {
	case 1:
		runtime.Gosched()
	case 2:
		time.Sleep(50 * time.Microsecond)
	case 3:
		time.Sleep(500 * time.Microsecond)
	}
	d := toMx(gy).v
	for j, x := range f.xs {
		if !x.RequiresGrad() || f.skip[j] {
			continue
		}
		gx := make([]float64, f.d)
		for i := range gx {
			gx[i] = f.coef[j] * d[i]
			if f.mul && j < 2 {
				gx[i] += d[i] * toMx(f.xs[1-j].Value()).v[i]
			}
		}
		x.AccGrad(f.make(gx))
		if f.nap == 1 {
			runtime.Gosched()
		}
	}
	atomic.AddInt64(&n.ends, 1)
	return nil
}

// bpNode is one node of the graph under test with the oracle's state.
type bpNode struct {
	g         *bpGraph
	id        int
	f         *bpFn // nil: leaf
	t         mat.Tensor
	ops       []int  // operand ids
	blocked   []bool // operand wrapped by StopGrad
	req       bool
	val       []float64
	consumers []*bpNode
	grad      []float64 // oracle; nil: none

	mu      sync.Mutex
	starts  int64
	ends    int64
	mustRun int32
	seen    mx
	early   string
}

type bpGraph struct {
	nodes []*bpNode
	d     int
	f32   bool
	hist  []string
}

func (g *bpGraph) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "width %d, float32 %v:", g.d, g.f32)
	from := 0
	if len(g.nodes) > 40 {
		from = len(g.nodes) - 12
		fmt.Fprintf(&b, " ...%d nodes...", from)
	}
	for _, n := range g.nodes[from:] {
		if n.f == nil {
			fmt.Fprintf(&b, " n%d=leaf(req %v)%v", n.id, n.req, n.val)
			continue
		}
		fmt.Fprintf(&b, " n%d=", n.id)
		for j, o := range n.ops {
			s := ""
			if n.blocked[j] {
				s += "[stop]"
			}
			if n.f.skip[j] {
				s += "[skip]"
			}
			fmt.Fprintf(&b, "%+gn%d%s", n.f.coef[j], o, s)
		}
		if n.f.mul {
			b.WriteString("+product")
		}
	}
	if len(g.hist) > 0 {
		fmt.Fprintf(&b, "; %s", strings.Join(g.hist, "; "))
	}
	return b.String()
}

func (g *bpGraph) leaf(r *run, req bool) *bpNode {
	v := make([]float64, g.d)
	for i := range v {
		v[i] = float64(r.rnd.Intn(9)-4) / 4
	}
	n := &bpNode{g: g, id: len(g.nodes), req: req, val: v}
	if req && r.rnd.Intn(2) == 0 {
		n.t = nn.NewParam(buildAs(g.f32, col(v...)))
	} else {
		m := buildAs(g.f32, col(v...))
		m.SetRequiresGrad(req)
		n.t = m
	}
	g.nodes = append(g.nodes, n)
	return n
}

func (g *bpGraph) op(ops []int, coef []float64, blocked, skip []bool, mul, async bool, nap int) *bpNode {
	n := &bpNode{g: g, id: len(g.nodes), ops: ops, blocked: blocked}
	f := &bpFn{n: n, coef: coef, mul: mul && len(ops) >= 2, skip: skip, d: g.d, f32: g.f32, nap: nap}
	n.f = f
	n.val = make([]float64, g.d)
	for j, o := range ops {
		x := g.nodes[o]
		t := x.t
		if blocked[j] {
			t = ag.StopGrad(t)
		} else {
			if x.req {
				n.req = true
			}
			dup := false
			for _, c := range x.consumers {
				dup = dup || c == n
			}
			if !dup {
				x.consumers = append(x.consumers, n)
			}
		}
		f.xs = append(f.xs, t)
		for i := range n.val {
			n.val[i] += coef[j] * x.val[i]
		}
	}
	if f.mul {
		for i := range n.val {
			n.val[i] += g.nodes[ops[0]].val[i] * g.nodes[ops[1]].val[i]
		}
	}
	n.t = ag.NewOperator(f).Run(async)
	g.nodes = append(g.nodes, n)
	return n
}

func (g *bpGraph) randomOp(r *run) *bpNode {
	k := 1 + r.rnd.Intn(3)
	ops, coef, blocked, skip := make([]int, k), make([]float64, k), make([]bool, k), make([]bool, k)
	for j := range ops {
		ops[j] = r.rnd.Intn(len(g.nodes))
		if r.rnd.Intn(2) == 0 { // prefer recent nodes
			ops[j] = len(g.nodes) - 1 - r.rnd.Intn(min(3, len(g.nodes)))
		}
		if j > 0 && r.rnd.Intn(5) == 0 {
			ops[j] = ops[j-1]
		}
		coef[j] = []float64{1, -1, 0.5, 2, 0}[r.rnd.Intn(5)]
		blocked[j] = r.rnd.Intn(12) == 0
		skip[j] = r.rnd.Intn(15) == 0
	}
	return g.op(ops, coef, blocked, skip, r.rnd.Intn(4) == 0, r.rnd.Intn(2) == 0, r.rnd.Intn(4))
}

// expect runs the oracle for a pass from the given roots and reports whether an error is due.
func (g *bpGraph) expect(roots []int) (fails bool, part map[int]bool) {
	part = map[int]bool{}
	for _, n := range g.nodes {
		n.starts, n.ends, n.mustRun, n.early = 0, 0, 0, ""
	}
	for _, x := range roots {
		n := g.nodes[x]
		if n.f != nil && g.d != 1 && n.grad == nil {
			return true, part
		}
	}
	var walk func(x int)
	walk = func(x int) {
		n := g.nodes[x]
		if n.f == nil || !n.req || part[x] {
			return
		}
		part[x] = true
		for j, o := range n.ops {
			if !n.blocked[j] {
				walk(o)
			}
		}
	}
	for _, x := range roots {
		walk(x)
		if n := g.nodes[x]; n.f != nil && n.grad == nil {
			n.grad = []float64{1}
		}
	}
	for x := len(g.nodes) - 1; x >= 0; x-- {
		n := g.nodes[x]
		if !part[x] || n.grad == nil {
			continue
		}
		n.mustRun = 1
		for j, o := range n.ops {
			ox := g.nodes[o]
			if n.blocked[j] || !ox.req || n.f.skip[j] {
				continue
			}
			if ox.grad == nil {
				ox.grad = make([]float64, g.d)
			}
			for i := range ox.grad {
				ox.grad[i] += n.f.coef[j] * n.grad[i]
				if n.f.mul && j < 2 {
					ox.grad[i] += n.grad[i] * g.nodes[n.ops[1-j]].val[i]
				}
			}
		}
	}
	return false, part
}

func near13(a, b []float64, f32 bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		t := 1e-9
		if f32 {
			t = 1e-3
		}
		if math.Abs(a[i]-b[i]) > t*(1+math.Abs(a[i])+math.Abs(b[i])) {
			return false
		}
	}
	return true
}

// check compares the state of every node with the oracle after a pass.
func (g *bpGraph) check(r *run, ran bool) bool {
	for _, n := range g.nodes {
		if n.f != nil && ran {
			want := int64(n.mustRun)
			if n.starts != want {
				r.fail("visit", "Backward.once", "the backward function of n%d ran %d times instead of %d: %v", n.id, n.starts, want, g)
				return false
			}
			if n.early != "" {
				r.fail("visit", "Backward.order", "the backward function of n%d ran %s: %v", n.id, n.early, g)
				return false
			}
			if want == 1 && !near13(n.seen.v, n.grad, g.f32) {
				r.fail("visit", "Backward.gradient", "the backward function of n%d was given %v instead of %v: %v", n.id, n.seen.v, n.grad, g)
				return false
			}
		}
		if !n.req {
			if n.f == nil && !isNilGrad(n.t.Grad()) {
				r.fail("sum", "Backward.leaf", "n%d requires no gradient and has %v: %v", n.id, toMx(n.t.Grad()), g)
				return false
			}
			continue
		}
		got := n.t.Grad()
		if isNilGrad(got) != (n.grad == nil) || n.grad != nil && !near13(toMx(got).v, n.grad, g.f32) {
			r.fail("sum", "Backward.sum", "the gradient of n%d is %s instead of %v: %v", n.id, gradString(got), n.grad, g)
			return false
		}
		if n.t.HasGrad() != (n.grad != nil) {
			r.fail("sum", "Backward.HasGrad", "n%d: HasGrad is %v: %v", n.id, n.t.HasGrad(), g)
			return false
		}
		if !near13(toMx(n.t.Value()).v, n.val, g.f32) {
			r.fail("sum", "Backward.value", "the value of n%d is %v instead of %v: %v", n.id, toMx(n.t.Value()).v, n.val, g)
			return false
		}
	}
	return true
}

func (g *bpGraph) external(r *run, x int) {
	n := g.nodes[x]
	v := make([]float64, g.d)
	for i := range v {
		v[i] = float64(r.rnd.Intn(9)-4) / 2
	}
	n.t.RequiresGrad()
	n.t.AccGrad(buildAs(g.f32, col(v...)))
	if n.grad == nil {
		n.grad = make([]float64, g.d)
	}
	for i := range v {
		n.grad[i] += v[i]
	}
	g.hist = append(g.hist, fmt.Sprintf("gradient %v added to n%d", v, x))
}

// pass runs one backward pass and compares; false ends the history.
func (g *bpGraph) pass(r *run, roots []int) bool {
	r.n++
	g.hist = append(g.hist, fmt.Sprintf("Backward from %v", roots))
	ts := make([]mat.Tensor, len(roots))
	for i, x := range roots {
		ts[i] = g.nodes[x].t
	}
	fails, _ := g.expect(roots)
	var err error
	if p := r.watchdog("Backward.hangs", g.String(), func() { err = ag.Backward(ts...) }); p != nil {
		r.fail("visit", "Backward.panics", "panic %v: %v", p, g)
		return false
	}
	if (err != nil) != fails {
		r.fail("visit", "Backward.error", "error %v instead of %v: %v", err, fails, g)
		return false
	}
	if fails {
		for _, n := range g.nodes {
			n.mustRun = 0
		}
	}
	return g.check(r, true)
}

// zero clears the gradients of some nodes.
func (g *bpGraph) zero(r *run, all bool) {
	s := "ZeroGrad"
	for _, n := range g.nodes {
		if all || r.rnd.Intn(3) == 0 {
			n.t.ZeroGrad()
			n.grad = nil
			s += fmt.Sprintf(" n%d", n.id)
		}
	}
	if all {
		s = "ZeroGrad of all"
	}
	g.hist = append(g.hist, s)
}

func (r *run) newGraph() *bpGraph {
	g := &bpGraph{d: 1, f32: r.rnd.Intn(2) == 0}
	if r.rnd.Intn(3) == 0 {
		g.d = 2 + r.rnd.Intn(2)
	}
	for i := 1 + r.rnd.Intn(3); i > 0; i-- {
		g.leaf(r, r.rnd.Intn(4) != 0)
	}
	return g
}

func (r *run) roots(g *bpGraph) []int {
	k := 1
	if r.rnd.Intn(2) == 0 {
		k += r.rnd.Intn(3)
	}
	var roots []int
	for i := 0; i < k; i++ {
		x := r.rnd.Intn(len(g.nodes))
		if r.rnd.Intn(2) == 0 {
			x = len(g.nodes) - 1 - r.rnd.Intn(min(3, len(g.nodes)))
		}
		if len(roots) > 0 && r.rnd.Intn(5) == 0 {
			x = roots[0]
		}
		roots = append(roots, x)
	}
	return roots
}

// bpHistory is a random graph with a random history of passes.
func bpHistory(r *run) {
	g := r.newGraph()
	for i := 1 + r.rnd.Intn(9); i > 0; i-- {
		g.randomOp(r)
	}
	for p := 1 + r.rnd.Intn(3); p > 0; p-- {
		roots := r.roots(g)
		for _, x := range roots {
			if n := g.nodes[x]; n.f != nil && n.req && (r.rnd.Intn(5) == 0 || g.d > 1 && r.rnd.Intn(8) != 0) {
				g.external(r, x)
			}
		}
		if r.rnd.Intn(8) == 0 {
			if x := r.rnd.Intn(len(g.nodes)); g.nodes[x].f != nil && g.nodes[x].req {
				g.external(r, x)
			}
		}
		if !g.pass(r, roots) {
			return
		}
		switch r.rnd.Intn(4) {
		case 0:
			g.zero(r, true)
		case 1:
			g.zero(r, false)
		}
		if !g.check(r, false) {
			return
		}
		for i := r.rnd.Intn(3); i > 0; i-- { // the graph goes on
			g.randomOp(r)
		}
	}
}

// bpShape are fixed graphs: long chains, doubling diamonds, wide sums.
func bpShapes(r *run) {
	no := func(k int) []bool { return make([]bool, k) }
	one := func(g *bpGraph, nap int, coef float64, ops ...int) int {
		c := make([]float64, len(ops))
		for i := range c {
			c[i] = coef
		}
		return g.op(ops, c, no(len(ops)), no(len(ops)), false, r.rnd.Intn(2) == 0, nap).id
	}
	for _, depth := range []int{1, 2, 10, 3000} {
		g := &bpGraph{d: 1}
		x := g.leaf(r, true).id
		for i := 0; i < depth; i++ {
			x = one(g, 0, 1, x)
		}
		if !g.pass(r, []int{x}) || !g.pass(r, []int{x}) {
			return
		}
	}
	for _, depth := range []int{2, 60} { // 2^depth paths
		g := &bpGraph{d: 1}
		x := g.leaf(r, true).id
		for i := 0; i < depth; i++ {
			x = one(g, 0, 0.5, x, x)
		}
		if !g.pass(r, []int{x}) {
			return
		}
		g = &bpGraph{d: 1}
		x = g.leaf(r, true).id
		for i := 0; i < depth; i++ {
			a, b := one(g, r.rnd.Intn(3), 1, x), one(g, r.rnd.Intn(3), 1, x)
			x = one(g, 0, 0.5, a, b)
		}
		if !g.pass(r, []int{x}) {
			return
		}
		g.zero(r, true)
		if !g.pass(r, []int{x, x - 3}) {
			return
		}
	}
	for k := 0; k < 2; k++ { // a shared node, wide sum of consumers with different delays
		g := &bpGraph{d: 1 + k}
		x := g.leaf(r, true).id
		h := one(g, 0, 1, x)
		var all []int
		for i := 0; i < 100; i++ {
			all = append(all, one(g, r.rnd.Intn(4), 1, h))
		}
		y := one(g, 0, 1, all...)
		if k == 1 {
			g.external(r, y)
		}
		if !g.pass(r, []int{y}) {
			return
		}
		if k == 0 && !g.pass(r, all) {
			return
		}
	}
}

// bpTogether runs passes over different graphs that share leaves at the same time.
func bpTogether(r *run) {
	g := &bpGraph{d: 1}
	leaf := g.leaf(r, true)
	const m = 4
	roots := make([]int, m)
	for i := range roots {
		x := leaf.id
		for k := 1 + r.rnd.Intn(4); k > 0; k-- {
			ops := []int{x, x}
			if r.rnd.Intn(2) == 0 {
				ops[1] = leaf.id
			}
			x = g.op(ops, []float64{1, 0.5}, make([]bool, 2), make([]bool, 2), false, false, r.rnd.Intn(3)).id
		}
		roots[i] = x
	}
	r.n++
	g.hist = append(g.hist, fmt.Sprintf("at the same time Backward from each of %v", roots))
	g.expect(roots)
	p := r.watchdog("Backward.hangs", g.String(), func() {
		var wg sync.WaitGroup
		for _, x := range roots {
			wg.Add(1)
			go func(y mat.Tensor) { defer wg.Done(); ag.Backward(y) }(g.nodes[x].t)
		}
		wg.Wait()
	})
	if p != nil {
		r.fail("visit", "Backward.panics", "panic %v: %v", p, g)
		return
	}
	g.check(r, true)
}

func backpropRun(t *testing.T, rounds int) {
	r := newRun(t, "C13")
	bpShapes(r)
	for i := r.rounds(rounds); i > 0 && r.fails < 20; i-- {
		bpHistory(r)
		if i%10 == 0 {
			bpTogether(r)
		}
	}
	r.done(fmt.Sprintf("passes over random graphs of recorded operators (repeated operands, several roots, stopped and undelivered gradients, further passes with and without cleared gradients, extended graphs, chains of 3000 operators, 2^60 paths) compared with a sequential oracle: number, order and argument of the backward calls, gradients of all nodes"))
}

func TestReplayC13(t *testing.T)  { backpropRun(t, 3000) }
func TestBoundedC13(t *testing.T) { backpropRun(t, 1500) }
