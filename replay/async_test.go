package zzverif

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
)

// asFn computes a sum of products of its operands after waiting for a gate.
type asFn struct {
	xs    []mat.Tensor
	nap   int
	gate  chan struct{}
	fixed mat.Matrix
	done  int32
}

func nap(k int) {
	switch k {
	case 1:
		runtime.Gosched()
	case 2:
		time.Sleep(20 * time.Microsecond)
	case 3:
		time.Sleep(300 * time.Microsecond)
	}
}

func (f *asFn) Operands() []mat.Tensor { return f.xs }

func (f *asFn) Forward() (mat.Tensor, error) {
	if f.gate != nil {
		<-f.gate
	}
	nap(f.nap)
	defer atomic.StoreInt32(&f.done, 1)
	if f.fixed != nil {
		return f.fixed, nil
	}
	y := f.xs[0].Value().(mat.Matrix).ProdScalar(0.5)
	for _, x := range f.xs[1:] {
		y = y.Add(x.Value().(mat.Matrix)).Prod(y)
	}
	return y, nil
}

// Backward of y = 0.5 x0 and of the steps y' = (y + x) y.
func (f *asFn) Backward(gy mat.Tensor) error {
	ys := []mat.Matrix{f.xs[0].Value().(mat.Matrix).ProdScalar(0.5)}
	for j, x := range f.xs[1:] {
		ys = append(ys, ys[j].Add(x.Value().(mat.Matrix)).Prod(ys[j]))
	}
	g := gy.(mat.Matrix)
	for j := len(f.xs) - 1; j > 0; j-- {
		nap(f.nap)
		if f.xs[j].RequiresGrad() {
			f.xs[j].AccGrad(g.Prod(ys[j-1]))
		}
		g = g.Prod(ys[j-1].ProdScalar(2).Add(f.xs[j].Value().(mat.Matrix)))
	}
	if f.xs[0].RequiresGrad() {
		f.xs[0].AccGrad(g.ProdScalar(0.5))
	}
	return nil
}

type asNode struct {
	ops []int
	nap int
}

// asBuild makes the graph over the leaves; async decides how each node runs.
func asBuild(leaves []mx, req []bool, nodes []asNode, f32 bool, async func(i int) bool) []mat.Tensor {
	var ts []mat.Tensor
	for i, v := range leaves {
		m := buildAs(f32, v)
		m.SetRequiresGrad(req[i])
		ts = append(ts, m)
	}
	for i, n := range nodes {
		f := &asFn{nap: n.nap}
		for _, o := range n.ops {
			f.xs = append(f.xs, ts[o])
		}
		ts = append(ts, ag.NewOperator(f).Run(async(i)))
	}
	return ts
}

// asGraphs: values and gradients of random graphs run concurrently equal those
// of the graph run one operator after the other.
func asGraphs(r *run) {
	f32 := r.rnd.Intn(2) == 0
	rows, cols := 1+r.rnd.Intn(3), 1+r.rnd.Intn(3)
	if r.rnd.Intn(12) == 0 {
		rows = 0
	}
	var leaves []mx
	var req []bool
	for i := 1 + r.rnd.Intn(3); i > 0; i-- {
		leaves = append(leaves, newMx(rows, cols, func(_, _ int) float64 { return float64(r.rnd.Intn(7)-3) / 4 }))
		req = append(req, r.rnd.Intn(4) != 0)
	}
	k := len(leaves)
	var nodes []asNode
	for i := 1 + r.rnd.Intn(12); i > 0; i-- {
		n := asNode{nap: r.rnd.Intn(4)}
		for j := 1 + r.rnd.Intn(3); j > 0; j-- {
			n.ops = append(n.ops, r.rnd.Intn(k))
		}
		nodes = append(nodes, n)
		k++
	}
	mask := r.rnd.Uint64()
	if r.rnd.Intn(2) == 0 {
		mask = ^uint64(0)
	}
	procs := 1 + r.rnd.Intn(8)
	old := runtime.GOMAXPROCS(procs)
	defer runtime.GOMAXPROCS(old)
	desc := fmt.Sprintf("float32=%v leaves%s requiring gradients %v, operators %+v, asynchronous %b, GOMAXPROCS %d", f32, mxList(leaves), req, nodes, mask&(1<<len(nodes)-1), procs)
	r.n++
	ref := asBuild(leaves, req, nodes, f32, func(int) bool { return false })
	var got []mat.Tensor
	vals := make([][]mx, 4)
	seed := r.rnd.Int63()
	back := r.rnd.Intn(3) != 0
	p := r.watchdog("async.graph", desc, func() {
		got = asBuild(leaves, req, nodes, f32, func(i int) bool { return mask>>i&1 == 1 })
		var wg sync.WaitGroup
		for w := range vals { // readers at the same time, in different orders
			vals[w] = make([]mx, len(got))
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, i := range rand.New(rand.NewSource(seed + int64(w))).Perm(len(got)) {
					vals[w][i] = toMx(got[i].Value())
					_ = got[i].RequiresGrad()
				}
			}()
		}
		wg.Wait()
	})
	if p != nil {
		r.fail("async", "async.graph", "%s: panic %v", desc, p)
		return
	}
	for w := range vals {
		for i := range ref {
			if want := toMx(ref[i].Value()); !identical(vals[w][i], want) {
				r.fail("async", "async.value", "%s: the value of node %d is %v instead of %v", desc, i, vals[w][i], want)
				return
			}
		}
	}
	last := len(ref) - 1
	if !back || rows == 0 || !ref[last].RequiresGrad() {
		return
	}
	gv := newMx(rows, cols, func(_, _ int) float64 { return float64(r.rnd.Intn(7)-3) / 2 })
	for _, ts := range [][]mat.Tensor{ref, got} {
		ts := ts
		p := r.watchdog("async.backward", desc, func() {
			ts[last].AccGrad(buildAs(f32, gv))
			if err := ag.Backward(ts[last]); err != nil {
				panic(err)
			}
		})
		if p != nil {
			r.fail("async", "async.backward", "%s: panic %v", desc, p)
			return
		}
	}
	for i := range ref {
		a, b := got[i].Grad(), ref[i].Grad()
		if isNilGrad(a) != isNilGrad(b) {
			r.fail("async", "async.grad", "%s: the gradient of node %d is %s instead of %s", desc, i, gradString(a), gradString(b))
			return
		}
		if !isNilGrad(a) && !near13(toMx(a).v, toMx(b).v, f32) {
			r.fail("async", "async.grad", "%s: the gradient of node %d is %s instead of %s", desc, i, gradString(a), gradString(b))
			return
		}
	}
}

// asWaits: no reader returns before the value is there, and every one does afterwards.
func asWaits(r *run) {
	v := newMx(1, 1, func(_, _ int) float64 { return float64(1 + r.rnd.Intn(9)) })
	reads := []struct {
		name string
		f    func(o *ag.Operator) bool
	}{
		{"Value", func(o *ag.Operator) bool { return identical(toMx(o.Value()), v) }},
		{"Item", func(o *ag.Operator) bool { return o.Item().F64() == v.v[0] }},
		{"Size", func(o *ag.Operator) bool { return o.Size() == 1 }},
		{"Shape", func(o *ag.Operator) bool { return len(o.Shape()) == 2 && o.Shape()[0] == 1 }},
		{"Dims", func(o *ag.Operator) bool { return o.Dims() == 2 }},
		{"Data", func(o *ag.Operator) bool { return o.Data().F64()[0] == v.v[0] }},
		{"At", func(o *ag.Operator) bool { return o.At(0, 0).Item().F64() == v.v[0] }},
		{"Grad", func(o *ag.Operator) bool { return isNilGrad(o.Grad()) }},
		{"HasGrad", func(o *ag.Operator) bool { return !o.HasGrad() }},
		{"RequiresGrad", func(o *ag.Operator) bool { return o.RequiresGrad() }},
	}
	f32 := r.rnd.Intn(2) == 0
	x := buildAs(f32, v)
	x.SetRequiresGrad(true)
	f := &asFn{xs: []mat.Tensor{x}, gate: make(chan struct{}), fixed: buildAs(f32, v), nap: r.rnd.Intn(4)}
	var o *ag.Operator
	r.n++
	if p := r.watchdog("async.start", "starting an asynchronous operator", func() { o = ag.NewOperator(f).Run(true) }); p != nil {
		r.fail("async", "async.start", "panic %v", p)
		return
	}
	var wg sync.WaitGroup
	early, wrong := make([]bool, len(reads)), make([]bool, len(reads))
	ps := make([]any, len(reads))
	for i, rd := range reads {
		i, rd := i, rd
		wg.Add(1)
		go func() {
			defer wg.Done()
			ps[i] = catch(func() {
				ok := rd.f(o)
				early[i] = atomic.LoadInt32(&f.done) == 0
				wrong[i] = !ok
			})
		}()
	}
	time.Sleep(time.Duration(r.rnd.Intn(400)) * time.Microsecond)
	close(f.gate)
	r.watchdog("async.readers", "reading an operator that has been run", wg.Wait)
	for i, rd := range reads {
		switch {
		case ps[i] != nil:
			r.fail("async", "async."+rd.name, "%s of an operator that is still running: panic %v", rd.name, ps[i])
		case early[i]:
			r.fail("async", "async."+rd.name, "%s returned before the forward step ended", rd.name)
		case wrong[i]:
			r.fail("async", "async."+rd.name, "%s of an asynchronous operator with the value %v gave another result", rd.name, v)
		}
	}
}

// asMany: more operators than places to run them, results of every size.
func asMany(r *run) {
	for _, dims := range [][2]int{{0, 0}, {0, 3}, {2, 0}, {1, 1}, {2, 3}, {40, 30}} {
		for _, f32 := range []bool{false, true} {
			v := newMx(dims[0], dims[1], func(i, j int) float64 { return float64(i-j) / 8 })
			k := 6*runtime.NumCPU() + 40
			desc := fmt.Sprintf("%d asynchronous operators, each giving a %dx%d matrix, float32=%v", k, dims[0], dims[1], f32)
			r.n++
			bad := -1
			var err error
			p := r.watchdog("async.many", desc, func() {
				var ops []*ag.Operator
				for i := 0; i < k; i++ {
					f := &asFn{fixed: buildAs(f32, v), nap: i % 4}
					if i > 0 && i%3 == 0 {
						f = &asFn{xs: []mat.Tensor{ops[i-1], ops[i-2]}, nap: i % 2}
					}
					ops = append(ops, ag.NewOperator(f).Run(true))
				}
				for i := len(ops) - 1; i >= 0; i-- {
					got := toMx(ops[i].Value())
					if i%3 != 0 && !identical(got, v) {
						bad = i
					}
				}
				err = ag.Backward()
			})
			if p != nil {
				r.fail("async", "async.many", "%s: panic %v", desc, p)
			} else if bad >= 0 {
				r.fail("async", "async.many", "%s: operator %d has another value", desc, bad)
			} else if err != nil {
				r.fail("async", "async.many", "Backward of nothing: %v", err)
			}
		}
	}
}

// asReader has a Grad.
type asReader interface {
	AccGrad(mat.Tensor)
	Grad() mat.Tensor
	HasGrad() bool
	ZeroGrad()
}

// asAccumulate: gradients delivered at the same time are all counted.
func asAccumulate(r *run) {
	f32 := r.rnd.Intn(2) == 0
	rows, cols := 1+r.rnd.Intn(4), 1+r.rnd.Intn(4)
	if r.rnd.Intn(4) == 0 {
		rows, cols = 64, 16 // long enough to be interrupted
	}
	m := buildAs(f32, newMx(rows, cols, func(_, _ int) float64 { return 1 }))
	m.SetRequiresGrad(true)
	var t asReader
	var em *embedding.Model
	kind := r.rnd.Intn(4)
	name := []string{"a matrix", "a parameter", "an operator", "embeddings"}[kind]
	count := 0
	switch kind {
	case 0:
		t = m
	case 1:
		t = nn.NewParam(m)
	case 2:
		t = ag.NewOperator(&asFn{xs: []mat.Tensor{m}, fixed: m.ProdScalar(2)}).Run(true)
		t.(*ag.Operator).RequiresGrad()
	case 3:
		if f32 {
			em = embedding.New[float32](5, rows*cols)
		} else {
			em = embedding.New[float64](5, rows*cols)
		}
		rows, cols = rows*cols, 1
	}
	workers, each := 2+r.rnd.Intn(7), 1+r.rnd.Intn(30)
	old := runtime.GOMAXPROCS(1 + r.rnd.Intn(8))
	defer runtime.GOMAXPROCS(old)
	desc := fmt.Sprintf("%d goroutines delivering %d gradients each to %s of %dx%d elements, float32=%v", workers, each, name, rows, cols, f32)
	r.n++
	sums := make([]int64, 5)
	var torn int32
	p := r.watchdog("async.accumulate", desc, func() {
		var wg sync.WaitGroup
		start := make(chan struct{})
		var ps sync.Map
		for w := 0; w < workers; w++ {
			w := w
			g := buildAs(f32, newMx(rows, cols, func(_, _ int) float64 { return float64(w + 1) }))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if p := catch(func() {
					for i := 0; i < each; i++ {
						if kind == 3 {
							k := (w + i) % 5
							e, err := em.Embedding(k)
							if err != nil {
								panic(err)
							}
							e.AccGrad(g)
							atomic.AddInt64(&sums[k], int64(w+1))
							_ = e.HasGrad()
							if i%7 == 3 {
								_ = em.CountEmbedWithGrad()
							}
							continue
						}
						t.AccGrad(g)
						atomic.AddInt64(&sums[0], int64(w+1))
						if !t.HasGrad() || isNilGrad(t.Grad()) {
							atomic.StoreInt32(&torn, 1)
						}
					}
				}); p != nil {
					ps.Store(w, p)
				}
			}()
		}
		close(start)
		wg.Wait()
		ps.Range(func(_, p any) bool { panic(p) })
	})
	if p != nil {
		r.fail("async", "async.accumulate", "%s: panic %v", desc, p)
		return
	}
	if torn != 0 {
		r.fail("async", "async.accumulate", "%s: no gradient after one was delivered", desc)
		return
	}
	check := func(t asReader, want int64, what string) {
		g := t.Grad()
		if isNilGrad(g) != (want == 0) {
			r.fail("async", "async.accumulate", "%s: gradient %s%s instead of %d", desc, gradString(g), what, want)
			return
		}
		if want == 0 {
			return
		}
		for _, x := range toMx(g).v {
			if x != float64(want) {
				r.fail("async", "async.accumulate", "%s: gradient %v%s instead of %d", desc, x, what, want)
				return
			}
		}
	}
	if kind != 3 {
		check(t, sums[0], "")
		return
	}
	for k, s := range sums {
		e, _ := em.Embedding(k)
		check(e, s, fmt.Sprintf(" of embedding %d", k))
		if s != 0 {
			count++
		}
	}
	if n := em.CountEmbedWithGrad(); n != count {
		r.fail("async", "async.count", "%s: %d embeddings with gradients instead of %d", desc, n, count)
	}
}

// asLibrary: graphs of the library's operators, forced to run one after the
// other and not, give the same values and gradients.
func asLibrary(r *run) {
	f32 := r.rnd.Intn(2) == 0
	n, k := 1+r.rnd.Intn(4), 1+r.rnd.Intn(4)
	a := newMx(n, k, func(_, _ int) float64 { return float64(r.rnd.Intn(9)-4) / 4 })
	b := newMx(n, 1, func(_, _ int) float64 { return float64(r.rnd.Intn(9)-4) / 4 })
	x := newMx(k, 1, func(_, _ int) float64 { return float64(r.rnd.Intn(9)-4) / 4 })
	desc := fmt.Sprintf("w=%v b=%v x=%v float32=%v", a, b, x, f32)
	r.n++
	var vals, grads [2][]mx
	for pass := 0; pass < 2; pass++ {
		pass := pass
		p := r.watchdog("async.library", desc, func() {
			ag.SetForceSyncExecution(pass == 0)
			defer ag.SetForceSyncExecution(false)
			w, bb, xx := buildAs(f32, a), buildAs(f32, b), buildAs(f32, x)
			var in []mat.Tensor
			for _, m := range []mat.Matrix{w, bb, xx} {
				m.SetRequiresGrad(true)
				in = append(in, m)
			}
			h := ag.Affine(bb, w, xx)
			u := ag.Tanh(ag.Mul(ag.T(ag.Mul(w, xx)), h))
			v := ag.Dot(h, ag.Sigmoid(h))
			var ys []mat.Tensor
			ys = append(ys, h, u, v, ag.Add(ag.Mul(w, xx), bb), ag.Softmax(h), ag.MulT(w, h))
			var ones []mat.Tensor
			for _, y := range ys {
				vals[pass] = append(vals[pass], toMx(y.Value()))
				ones = append(ones, ag.ReduceSum(y))
			}
			if err := ag.Backward(ag.Sum(ones...)); err != nil {
				panic(err)
			}
			for _, m := range in {
				grads[pass] = append(grads[pass], toMx(m.Grad()))
			}
		})
		if p != nil {
			r.fail("async", "async.library", "%s: panic %v", desc, p)
			return
		}
	}
	for i := range vals[0] {
		if !identical(vals[0][i], vals[1][i]) {
			r.fail("async", "async.library", "%s: output %d is %v, and %v when run at once", desc, i, vals[1][i], vals[0][i])
		}
	}
	for i := range grads[0] {
		if !near13(grads[0][i].v, grads[1][i].v, f32) {
			r.fail("async", "async.library", "%s: gradient %d is %v, and %v when run at once", desc, i, grads[1][i], grads[0][i])
		}
	}
}

func testC28(t *testing.T, rounds int) {
	r := newRun(t, "C28")
	asMany(r)
	for i := r.rounds(rounds); i > 0 && r.fails < 20; i-- {
		asGraphs(r)
		asAccumulate(r)
		asLibrary(r)
		if i%4 == 0 {
			asWaits(r)
			bpHistory(r)
		}
	}
	asMany(r)
	r.done("operators run in goroutines with random delays and processors, values and gradients compared with the same graph run one operator after the other; readers, accumulation and more operators than places")
}

func TestBoundedC28(t *testing.T) { testC28(t, 250) }

func TestReplayC28(t *testing.T) { testC28(t, 600) }
