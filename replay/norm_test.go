package zzverif

import (
	"fmt"
	"math"
	"testing"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/normalization/adanorm"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/nn/normalization/fixnorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernormsimple"
	"github.com/nlpodyssey/spago/nn/normalization/rmsnorm"
	"github.com/nlpodyssey/spago/nn/normalization/scalenorm"
)

// par makes a parameter of a leaf: the gradients reach the leaf.
func par(x mat.Tensor) *nn.Param {
	if p, ok := x.(*nn.Param); ok {
		return p
	}
	return &nn.Param{Matrix: x.(mat.Matrix)}
}

// sameType builds a matrix of the element type of x.
func sameType(x mat.Tensor, a mx) mat.Matrix { return buildAs(is32(x.Value()), a) }

func meanOf(v []float64) float64 {
	s := 0.0
	for _, x := range v {
		s += x
	}
	return s / float64(len(v))
}

func varOf(v []float64) float64 {
	m := meanOf(v)
	return sumF(v, func(x float64) float64 { return (x - m) * (x - m) }) / float64(len(v))
}

func sq(v []float64) float64 { return sumF(v, func(x float64) float64 { return x * x }) }

// spread: vectors for which normalisation is well conditioned.
func (r *run) spread(n int) mx {
	x := r.mx(n, 1)
	for i := range x.v {
		x.v[i] += float64(i%3) - 0.8
	}
	return x
}

func each(xs []mx, f func(x mx) mx) []mx {
	var out []mx
	for _, x := range xs {
		out = append(out, f(x))
	}
	return out
}

// normGen: n inputs, then p parameters of the same size.
func normGen(p int, noGrad bool, build func(p []mat.Tensor, x mat.Tensor) nn.StandardModel, f func(x mx, p []mx) mx) func(r *run) graphCase {
	return func(r *run) graphCase {
		d, n := r.dimP(), r.rnd.Intn(4)
		if d < 2 {
			d = 2
		}
		if n == 0 {
			n = 1
		}
		var in []mx
		for i := 0; i < n; i++ {
			in = append(in, r.spread(d))
		}
		for i := 0; i < p; i++ {
			in = append(in, r.mx(d, 1))
		}
		c := graphCase{desc: fmt.Sprint(n, " inputs"), in: in,
			run:  func(x []mat.Tensor) []mat.Tensor { return build(x[n:], x[0]).Forward(x[:n]...) },
			want: func(in []mx) []mx { return each(in[:n], func(x mx) mx { return f(x, in[n:]) }) },
		}
		c.tol = 20
		if noGrad {
			c.no = func(int) bool { return true }
		}
		return c
	}
}

const lnEps = 0.0625

func batchIn(r *run) (int, []mx) {
	d, n := 1+r.rnd.Intn(4), 1+r.rnd.Intn(4)
	var in []mx
	for i := 0; i < n; i++ {
		x := r.mx(d, 1)
		for k := range x.v {
			x.v[k] += float64(i) - 0.7
		}
		in = append(in, x)
	}
	return n, append(in, r.mx(d, 1), r.mx(d, 1))
}

func batchModel(p []mat.Tensor, mean, dev mx, mom float64) *batchnorm.Model {
	return &batchnorm.Model{W: par(p[0]), B: par(p[1]), Mean: nn.Buf(sameType(p[0], mean)), StdDev: nn.Buf(sameType(p[0], dev)), Momentum: nn.Buf(sameType(p[0], col(mom)))}
}

const bnEps = 1e-5

func batchStats(xs []mx) (mx, mx) {
	n := float64(len(xs)) + bnEps
	mean := newMx(xs[0].r, 1, func(i, _ int) float64 {
		s := 0.0
		for _, x := range xs {
			s += x.v[i]
		}
		return s / n
	})
	dev := newMx(xs[0].r, 1, func(i, _ int) float64 {
		s := 0.0
		for _, x := range xs {
			s += (x.v[i] - mean.v[i]) * (x.v[i] - mean.v[i])
		}
		return math.Sqrt(s / n)
	})
	return mean, dev
}

func batchOut(x, mean, dev, w, b mx) mx {
	return newMx(x.r, 1, func(i, _ int) float64 { return (x.v[i]-mean.v[i])*w.v[i]/(dev.v[i]+bnEps) + b.v[i] })
}

var normGens = []graphGen{
	{"scalenorm", normGen(1, false, func(p []mat.Tensor, _ mat.Tensor) nn.StandardModel { return &scalenorm.Model{Gain: par(p[0])} },
		func(x mx, p []mx) mx {
			n := math.Sqrt(sq(x.v)) + 1e-10
			return lift2(x, p[0], func(a, g float64) float64 { return a / n * g })
		})},
	{"fixnorm", normGen(0, false, func(p []mat.Tensor, _ mat.Tensor) nn.StandardModel { return fixnorm.New() },
		func(x mx, p []mx) mx {
			n := math.Sqrt(sq(x.v)) + 1e-10
			return lift(x, func(a float64) float64 { return a / n })
		})},
	{"rmsnorm", normGen(2, false, func(p []mat.Tensor, _ mat.Tensor) nn.StandardModel { return &rmsnorm.Model{W: par(p[0]), B: par(p[1])} },
		func(x mx, p []mx) mx {
			n := math.Sqrt(sq(x.v)/float64(len(x.v))) + 1e-10
			return newMx(x.r, 1, func(i, _ int) float64 { return x.v[i]/n*p[0].v[i] + p[1].v[i] })
		})},
	{"layernormsimple", normGen(0, false, func(p []mat.Tensor, _ mat.Tensor) nn.StandardModel { return layernormsimple.New() },
		func(x mx, p []mx) mx {
			m, d := meanOf(x.v), math.Sqrt(varOf(x.v))+1e-10
			return lift(x, func(a float64) float64 { return (a - m) / d })
		})},
	{"layernorm", normGen(2, false, func(p []mat.Tensor, x mat.Tensor) nn.StandardModel {
		return &layernorm.Model{W: par(p[0]), B: par(p[1]), Eps: nn.Buf(sameType(x, col(lnEps)))}
	},
		func(x mx, p []mx) mx {
			m, d := meanOf(x.v), math.Sqrt(varOf(x.v)+lnEps)
			return newMx(x.r, 1, func(i, _ int) float64 { return (x.v[i]-m)/d*p[0].v[i] + p[1].v[i] })
		})},
	{"adanorm", normGen(0, true, func(p []mat.Tensor, x mat.Tensor) nn.StandardModel {
		return &adanorm.Model{Scale: nn.Buf(sameType(x, col(0.75)))}
	},
		func(x mx, p []mx) mx {
			m, d := meanOf(x.v), math.Sqrt(varOf(x.v))+1e-10
			return lift(x, func(a float64) float64 { y := (a - m) / d; return y * 0.75 * (1 - 0.1*y) })
		})},
	{"batchnorm.Forward", func(r *run) graphCase {
		n, in := batchIn(r)
		d := in[0].r
		mean, dev := r.mx(d, 1), r.pos(d, 1)
		return graphCase{desc: fmt.Sprintf("running mean %v deviation %v", mean, dev), in: in, tol: 20,
			run: func(x []mat.Tensor) []mat.Tensor { return batchModel(x[n:], mean, dev, 0.75).Forward(x[:n]...) },
			want: func(in []mx) []mx {
				return each(in[:n], func(x mx) mx { return batchOut(x, mean, dev, in[n], in[n+1]) })
			}}
	}},
	{"batchnorm.ForwardT(constant)", func(r *run) graphCase {
		// the running averages for batches with features that (nearly) do not vary
		n, in := batchIn(r)
		d := in[0].r
		for i := 0; i < n; i++ {
			for k := range in[i].v {
				in[i].v[k] = in[0].v[k] + float64(i)*float64(k)*1e-3
			}
		}
		mean, dev := r.mx(d, 1), r.pos(d, 1)
		mom := float64(r.rnd.Intn(9)) / 8
		return graphCase{desc: fmt.Sprintf("running mean %v deviation %v momentum %v", mean, dev, mom), in: in, tol: 20,
			no:   func(int) bool { return true },
			keep: func(in []mx, f32 bool) bool { return !f32 },
			run: func(x []mat.Tensor) []mat.Tensor {
				m := batchModel(x[n:], mean, dev, mom)
				m.ForwardT(x[:n]...)
				return []mat.Tensor{m.Mean, m.StdDev}
			},
			want: func(in []mx) []mx {
				bm, bd := batchStats(in[:n])
				mix := func(a, b float64) float64 { return mom*a + (1-mom)*b }
				return []mx{lift2(mean, bm, mix), lift2(dev, bd, mix)}
			}}
	}},
	{"batchnorm.ForwardT", func(r *run) graphCase {
		n, in := batchIn(r)
		d := in[0].r
		mean, dev := r.mx(d, 1), r.pos(d, 1)
		mom := float64(r.rnd.Intn(9)) / 8
		return graphCase{desc: fmt.Sprintf("running mean %v deviation %v momentum %v", mean, dev, mom), in: in, tol: 20,
			keep: func(in []mx, f32 bool) bool { _, dv := batchStats(in[:n]); return n > 1 && minOf(dv.v) > 0.05 },
			run: func(x []mat.Tensor) []mat.Tensor {
				m := batchModel(x[n:], mean, dev, mom)
				ys := m.ForwardT(x[:n]...)
				// the running averages are outputs as well
				return append(ys, m.Mean, m.StdDev)
			},
			want: func(in []mx) []mx {
				bm, bd := batchStats(in[:n])
				out := each(in[:n], func(x mx) mx { return batchOut(x, bm, bd, in[n], in[n+1]) })
				mix := func(a, b float64) float64 { return mom*a + (1-mom)*b }
				return append(out, lift2(mean, bm, mix), lift2(dev, bd, mix))
			}}
	}},
}

func minOf(v []float64) float64 {
	m := math.Inf(1)
	for _, x := range v {
		m = math.Min(m, x)
	}
	return m
}

func TestReplayC23(t *testing.T)  { runGraphs(t, "C23", normGens, 60) }
func TestBoundedC23(t *testing.T) { runGraphs(t, "C23", normGens, 40) }
