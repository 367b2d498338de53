package zzverif

import (
	"fmt"
	"sync"
	"testing"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
)

// holder makes something that accumulates gradients for a value.
type holder struct {
	name string
	mk   func(m mat.Matrix) mat.Tensor
	acc  bool // gradients are kept
}

func holders() []holder {
	return []holder{
		{"Dense", func(m mat.Matrix) mat.Tensor { m.SetRequiresGrad(true); return m }, true},
		{"Param", func(m mat.Matrix) mat.Tensor { return nn.NewParam(m) }, true},
		{"Operator", func(m mat.Matrix) mat.Tensor { return ag.Copy(nn.NewParam(m)) }, true},
		{"StopGrad", func(m mat.Matrix) mat.Tensor { return ag.StopGrad(nn.NewParam(m)) }, false},
		{"Buffer", func(m mat.Matrix) mat.Tensor { return nn.Buf(nn.NewParam(m)) }, false},
	}
}

func gradString(g mat.Tensor) string {
	if isNilGrad(g) {
		return "none"
	}
	return toMx(g).String()
}

func isNilGrad(g mat.Tensor) bool {
	if g == nil {
		return true
	}
	switch d := g.(type) {
	case *mat.Dense[float32]:
		return d == nil
	case *mat.Dense[float64]:
		return d == nil
	}
	return false
}

// accSeq runs one random history of accumulations and resets.
func accSeq(r *run, h holder, f32 bool) {
	r.n++
	rows, cols := r.dim1(), r.dim1()
	val := r.mx(rows, cols)
	x := h.mk(buildAs(f32, val))
	if h.acc != x.RequiresGrad() {
		r.fail("acc", h.name+".RequiresGrad", "%s: RequiresGrad is %v", h.name, x.RequiresGrad())
		return
	}
	var sum *mx
	hist := ""
	check := func() bool {
		id := h.name + ".AccGrad"
		if x.HasGrad() != (sum != nil) {
			r.fail("acc", id, "%s %v after %s: HasGrad is %v", h.name, val, hist, x.HasGrad())
			return false
		}
		g := x.Grad()
		if isNilGrad(g) != (sum == nil) {
			r.fail("acc", id, "%s %v after %s: Grad is %s", h.name, val, hist, gradString(g))
			return false
		}
		if sum != nil && !eqMx(toMx(g), *sum, tolOf(true)) {
			r.fail("acc", id, "%s %v after %s: Grad is %v, sum is %v", h.name, val, hist, toMx(g), *sum)
			return false
		}
		if !identical(toMx(x.Value()), toMx(buildAs(f32, val))) {
			r.fail("acc", id, "%s %v after %s: the value changed to %v", h.name, val, hist, toMx(x.Value()))
			return false
		}
		return true
	}
	if !check() {
		return
	}
	for i := r.rnd.Intn(8); i >= 0; i-- {
		if r.rnd.Intn(4) == 0 {
			hist += "Zero "
			if p := catch(x.ZeroGrad); p != nil {
				r.fail("acc", h.name+".ZeroGrad", "%s %v after %s: panic %v", h.name, val, hist, p)
				return
			}
			sum = nil
		} else {
			g := r.mx(rows, cols)
			gm := buildAs(r.rnd.Intn(2) == 0, g)
			hist += "Acc" + g.String() + " "
			if p := catch(func() { x.AccGrad(gm) }); p != nil {
				r.fail("acc", h.name+".AccGrad", "%s %v after %s: panic %v", h.name, val, hist, p)
				return
			}
			if !identical(toMx(gm), g) && !eqMx(toMx(gm), g, tolOf(true)) {
				r.fail("acc", h.name+".AccGrad", "%s %v after %s: the given gradient changed to %v", h.name, val, hist, toMx(gm))
				return
			}
			if h.acc {
				if sum == nil {
					z := lift(g, func(x float64) float64 { return 0 })
					sum = &z
				}
				z := addMx(*sum, g)
				sum = &z
			}
			if r.rnd.Intn(2) == 0 {
				scribble(gm) // the caller goes on using its matrix
			}
		}
		if !check() {
			return
		}
	}
	// a gradient of another shape is refused and changes nothing
	if h.acc && sum != nil {
		if p := catch(func() { x.AccGrad(buildAs(f32, r.mx(rows+1, cols))) }); p == nil && (cols > 0) {
			r.fail("acc", h.name+".AccGrad", "%s %v after %s: accepted a gradient of another shape", h.name, val, hist)
			return
		}
		check()
	}
}

func accConcurrent(r *run, h holder) {
	r.n++
	x := h.mk(buildAs(false, r.mx(3, 2)))
	const n = 8
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				x.AccGrad(buildAs(false, newMx(3, 2, func(i, j int) float64 { return float64(1 + i) })))
			}
		}()
	}
	wg.Wait()
	want := newMx(3, 2, func(i, j int) float64 { return float64(50 * n * (1 + i)) })
	if g := toMx(x.Grad()); !identical(g, want) {
		r.fail("acc", h.name+".AccGrad(concurrent)", "%s: %d concurrent accumulations give %v, want %v", h.name, 50*n, g, want)
	}
}

func accRun(r *run, rounds int) {
	for _, h := range holders() {
		for i := 0; i < rounds; i++ {
			accSeq(r, h, i%2 == 0)
		}
	}
	for _, h := range holders() {
		if h.acc {
			for i := 0; i < 3; i++ {
				accConcurrent(r, h)
			}
		}
	}
	r.done(fmt.Sprintf("histories of up to 8 accumulations and resets on matrices, parameters, operators, buffers (rounds %d)", rounds))
}

func TestReplayC08(t *testing.T)  { r := newRun(t, "C08"); accRun(r, r.rounds(600)) }
func TestBoundedC08(t *testing.T) { r := newRun(t, "C08"); accRun(r, r.rounds(150)) }
