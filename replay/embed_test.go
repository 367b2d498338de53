package zzverif

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"sync"
	"testing"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
)

// embOuter holds an embedding model among other parameters.
type embOuter struct {
	nn.Module
	First *nn.Param
	Emb   *embedding.Model
	List  []nn.Model
	Last  *nn.Param
}

// embHistory is a random history of lookups, gradients and resets on one table.
func embHistory(r *run) {
	f32 := r.rnd.Intn(2) == 0
	size, dim := r.rnd.Intn(7), 1+r.rnd.Intn(4)
	if r.rnd.Intn(4) != 0 {
		size = 2 + r.rnd.Intn(6)
	}
	var m *embedding.Model
	if f32 {
		m = embedding.New[float32](size, dim)
	} else {
		m = embedding.New[float64](size, dim)
	}
	vals := make([]mx, size)
	grads := make([]*mx, size)
	hist := fmt.Sprintf("table %dx%d float32 %v", size, dim, f32)
	bad := func(id, format string, a ...any) bool {
		r.fail("emb", "embedding."+id, "%s: %s", hist, fmt.Sprintf(format, a...))
		return false
	}
	for i := range vals {
		if got := toMx(m.Weights[i]); !eqMx(got, newMx(dim, 1, func(_, _ int) float64 { return 0 }), 0) {
			bad("New", "row %d is %v", i, got)
			return
		}
		vals[i] = r.mx(dim, 1)
		m.Weights[i].ReplaceValue(buildAs(f32, vals[i]))
		m.Weights[i].SetRequiresGrad(true)
	}
	type handle struct {
		t   mat.Tensor
		idx int
	}
	var hs []handle
	var epoch int
	lookup := func(in []int) bool {
		hist += fmt.Sprintf("; Encode%v", in)
		inside := true
		for _, x := range in {
			inside = inside && x >= 0 && x < size
		}
		ys, err := m.Encode(in)
		if (err == nil) != inside {
			return bad("Encode", "error %v", err)
		}
		if err != nil {
			return true
		}
		if len(ys) != len(in) {
			return bad("Encode", "%d results", len(ys))
		}
		for k, y := range ys {
			if !eqMx(toMx(y.Value()), toMx(buildAs(f32, vals[in[k]])), 0) {
				return bad("Encode", "result %d is %v instead of %v", k, toMx(y.Value()), vals[in[k]])
			}
			hs = append(hs, handle{y, in[k]})
		}
		return true
	}
	one := func(x int) bool {
		hist += fmt.Sprintf("; Embedding(%d)", x)
		e, err := m.Embedding(x)
		if (err == nil) != (x >= 0 && x < size) {
			return bad("Embedding", "error %v", err)
		}
		if err == nil {
			if !eqMx(toMx(e.Value()), toMx(buildAs(f32, vals[x])), 0) {
				return bad("Embedding", "value %v instead of %v", toMx(e.Value()), vals[x])
			}
			hs = append(hs, handle{e, x})
		}
		return true
	}
	add := func(x int, g mx) {
		g = toMx(buildAs(f32, g))
		if grads[x] != nil {
			g = addMx(*grads[x], g)
		}
		grads[x] = &g
	}
	clear := func() {
		for i := range grads {
			grads[i] = nil
		}
	}
	check := func() bool {
		n := 0
		for i := range grads {
			if grads[i] != nil {
				n++
			}
			g := m.Weights[i].Grad()
			if isNilGrad(g) != (grads[i] == nil) || grads[i] != nil && !eqMx(toMx(g), *grads[i], tolOf(f32)) {
				return bad("Grad", "row %d has the gradient %s instead of %v", i, gradString(g), grads[i])
			}
			if !eqMx(toMx(m.Weights[i]), toMx(buildAs(f32, vals[i])), 0) {
				return bad("Value", "row %d changed to %v", i, toMx(m.Weights[i]))
			}
		}
		for _, h := range hs {
			if h.t.HasGrad() != (grads[h.idx] != nil) {
				return bad("HasGrad", "a lookup of row %d: HasGrad is %v", h.idx, h.t.HasGrad())
			}
			if grads[h.idx] != nil && !eqMx(toMx(h.t.Grad()), *grads[h.idx], tolOf(f32)) {
				return bad("Grad", "a lookup of row %d has the gradient %v instead of %v", h.idx, toMx(h.t.Grad()), *grads[h.idx])
			}
		}
		if c := m.CountEmbedWithGrad(); c != n {
			return bad("CountEmbedWithGrad", "%d instead of %d", c, n)
		}
		offered := func(id string, each func(f func(p *nn.Param)), extra ...*nn.Param) bool {
			seen := map[*nn.Param]int{}
			each(func(p *nn.Param) { seen[p]++ })
			for i, w := range m.Weights {
				want := 0
				if grads[i] != nil {
					want = 1
				}
				if seen[w] != want {
					return bad(id, "row %d is offered %d times instead of %d", i, seen[w], want)
				}
				delete(seen, w)
			}
			for _, p := range extra {
				if seen[p] != 1 {
					return bad(id, "another parameter is offered %d times", seen[p])
				}
				delete(seen, p)
			}
			if len(seen) > 0 {
				return bad(id, "%d parameters of no row are offered", len(seen))
			}
			return true
		}
		a, b := nn.NewParam(buildAs(f32, vals0(dim))), nn.NewParam(buildAs(f32, vals0(dim)))
		o := &embOuter{First: a, Emb: m, Last: b}
		ol := &embOuter{First: a, List: []nn.Model{m}, Last: b}
		os := &embOuter{First: a, List: []nn.Model{embedding.Shared{Model: m}}, Last: b}
		return offered("TraverseParams", m.TraverseParams) &&
			offered("ForEachParam", func(f func(p *nn.Param)) { nn.ForEachParam(m, f) }) &&
			offered("ForEachParam", func(f func(p *nn.Param)) { nn.ForEachParam(o, f) }, a, b) &&
			offered("ForEachParam", func(f func(p *nn.Param)) { nn.ForEachParam(ol, f) }, a, b) &&
			offered("ForEachParam", func(f func(p *nn.Param)) { nn.ForEachParam(os, f) }, a, b)
	}
	for step := 2 + r.rnd.Intn(14); step > 0; step-- {
		r.n++
		ok := true
		p := catch(func() {
			switch k := r.rnd.Intn(13); {
			case k < 2 || len(hs) == 0 && k < 7:
				in := make([]int, r.rnd.Intn(5))
				for i := range in {
					in[i] = r.rnd.Intn(size + 1)
					if size > 0 && r.rnd.Intn(8) != 0 {
						in[i] = r.rnd.Intn(size)
					} else if r.rnd.Intn(2) == 0 {
						in[i] = -1 - r.rnd.Intn(2)
					}
					if i > 0 && r.rnd.Intn(3) == 0 {
						in[i] = in[i-1]
					}
				}
				ok = lookup(in)
			case k < 3:
				ok = one(r.rnd.Intn(size+3) - 1)
			case k < 6 && len(hs) > 0:
				h := hs[r.rnd.Intn(len(hs))]
				g := r.mx(dim, 1)
				hist += fmt.Sprintf("; row %d gets %v", h.idx, g)
				h.t.AccGrad(buildAs(f32, g))
				add(h.idx, g)
			case k < 7 && len(hs) > 0: // the gradient of a sum over lookups
				var xs []mat.Tensor
				g := newMx(dim, 1, func(_, _ int) float64 { return 1 })
				hist += "; backward of the sum over rows"
				for j := 1 + r.rnd.Intn(4); j > 0; j-- {
					h := hs[r.rnd.Intn(len(hs))]
					xs = append(xs, h.t)
					add(h.idx, g)
					hist += fmt.Sprintf(" %d", h.idx)
				}
				if len(xs) == 1 {
					xs = append(xs, ag.StopGrad(xs[0]))
				}
				if err := ag.Backward(ag.ReduceSum(ag.Sum(xs...))); err != nil {
					ok = bad("Backward", "error %v", err)
				}
			case k < 8 && len(hs) > 0:
				h := hs[r.rnd.Intn(len(hs))]
				hist += fmt.Sprintf("; ZeroGrad of row %d", h.idx)
				h.t.ZeroGrad()
				grads[h.idx] = nil
			case k == 8:
				hist += "; ZeroGrad of the table"
				m.ZeroGrad()
				clear()
			case k == 9:
				hist += "; nn.ZeroGrad"
				nn.ZeroGrad(&embOuter{First: nn.NewParam(buildAs(f32, vals0(1))), Emb: m})
				clear()
			case k == 10 && size > 0: // what optimizers do
				x := r.rnd.Intn(size)
				hist += fmt.Sprintf("; ZeroGrad of the parameter of row %d", x)
				m.Weights[x].ZeroGrad()
				grads[x] = nil
			case k == 11: // saved and loaded
				hist += "; reloaded"
				epoch++
				var buf bytes.Buffer
				if err := nn.Dump(m, &buf); err != nil {
					ok = bad("Dump", "error %v", err)
					return
				}
				l, err := nn.Load[*embedding.Model](&buf)
				if err != nil {
					ok = bad("Load", "error %v", err)
					return
				}
				if l.Size != size || l.Dim != dim || len(l.Weights) != size {
					ok = bad("Load", "%d rows of %d, %d weights", l.Size, l.Dim, len(l.Weights))
					return
				}
				m, hs = l, nil
				clear()
				for i := range vals {
					if !m.Weights[i].RequiresGrad() {
						ok = bad("Load", "row %d requires no gradient", i)
					}
				}
			case k == 12 && len(hs) > 0: // several goroutines
				hist += "; at the same time"
				var wg sync.WaitGroup
				for j := 0; j < 4; j++ {
					h := hs[r.rnd.Intn(len(hs))]
					g := r.mx(dim, 1)
					add(h.idx, g)
					hist += fmt.Sprintf(" row %d gets %v", h.idx, g)
					gm := buildAs(f32, g)
					wg.Add(1)
					go func() { defer wg.Done(); h.t.AccGrad(gm) }()
				}
				wg.Wait()
			}
			ok = ok && check()
		})
		if p != nil {
			bad("panics", "panic %v", p)
			return
		}
		if !ok {
			return
		}
	}
}

func vals0(n int) mx { return newMx(n, 1, func(_, _ int) float64 { return 0 }) }

// embShared: the shared table is not written, and reads only empty data.
func embShared(r *run) {
	m := embedding.New[float32](3, 2)
	s := embedding.Shared{Model: m}
	r.n++
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(&s); err != nil {
		r.fail("emb", "embedding.Shared", "Encode: %v", err)
		return
	}
	t := embedding.Shared{Model: m}
	if err := gob.NewDecoder(&buf).Decode(&t); err != nil || t.Model != m {
		r.fail("emb", "embedding.Shared", "Decode: %v, table kept: %v", err, t.Model == m)
	}
	if d, err := s.MarshalBinary(); err != nil || len(d) != 0 {
		r.fail("emb", "embedding.Shared", "MarshalBinary gives %d bytes, error %v", len(d), err)
	}
	if err := t.UnmarshalBinary([]byte{1}); err == nil {
		r.fail("emb", "embedding.Shared", "UnmarshalBinary accepts data")
	}
}

func embedRun(t *testing.T, rounds int) {
	r := newRun(t, "C26")
	embShared(r)
	for i := r.rounds(rounds); i > 0 && r.fails < 20; i-- {
		embHistory(r)
	}
	r.done("steps of random histories on embedding tables (lookups with repeated and invalid indices, gradients through any lookup, backward passes, the three ways of clearing, reloading, concurrent gradients) compared with a map of sums: values, gradients, count and parameters offered to the optimizer")
}

func TestReplayC26(t *testing.T)  { embedRun(t, 6000) }
func TestBoundedC26(t *testing.T) { embedRun(t, 3000) }
