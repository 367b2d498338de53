package zzverif

import (
	"fmt"
	"math"
	"testing"

	"github.com/nlpodyssey/spago/losses"
	"github.com/nlpodyssey/spago/mat"
)

func lse(v []float64) float64 {
	m := math.Inf(-1)
	for _, x := range v {
		m = math.Max(m, x)
	}
	s := 0.0
	for _, x := range v {
		s += math.Exp(x - m)
	}
	return m + math.Log(s)
}

func sumF(v []float64, f func(x float64) float64) float64 {
	s := 0.0
	for _, x := range v {
		s += f(x)
	}
	return s
}

func scal(x float64) []mx { return []mx{col(x)} }

func one1(x mat.Tensor) []mat.Tensor { return []mat.Tensor{x} }

// dimP is a dimension of at least one.
func (r *run) dimP() int {
	if d := r.dim(); d > 0 {
		return d
	}
	return 1
}

func (r *run) vecP() mx {
	if r.rnd.Intn(4) == 0 {
		return r.mx(1, r.dimP())
	}
	return r.mx(r.dimP(), 1)
}

func (r *run) gamma() float64 { return []float64{0, 1, 2, 0.5, 3}[r.rnd.Intn(5)] }

func mseOf(a, b mx) float64 {
	s := 0.0
	for i := range a.v {
		s += (a.v[i] - b.v[i]) * (a.v[i] - b.v[i]) / 2
	}
	return s
}

func maeOf(a, b mx) float64 {
	s := 0.0
	for i := range a.v {
		s += math.Abs(a.v[i] - b.v[i])
	}
	return s
}

func ceOf(x mx, c int) float64 { return lse(x.v) - x.v[c] }

func focalOf(x mx, c int, g float64) float64 {
	ce := ceOf(x, c)
	return math.Pow(1-math.Exp(-ce), g) * ce
}

func zoq(x mx) float64 {
	return sumF(x.v, func(x float64) float64 { return x * x * (1 - x) * (1 - x) })
}
func n2q(x mx) float64 {
	n := sumF(x.v, func(x float64) float64 { return x * x })
	return (n - 1) * (n - 1)
}

// half splits the leaves in two sequences.
func half[T any](xs []T) ([]T, []T) { return xs[:len(xs)/2], xs[len(xs)/2:] }

func pairLoss(f func(x, y mat.Tensor, mean bool) mat.Tensor, o func(a, b mx) float64) func(r *run) graphCase {
	return func(r *run) graphCase {
		a := r.mx(r.dimP(), r.dimP())
		mean := r.rnd.Intn(2) == 0
		return graphCase{desc: fmt.Sprint("mean=", mean), in: []mx{a, r.mx(a.r, a.c)},
			run: func(x []mat.Tensor) []mat.Tensor { return one1(f(x[0], x[1], mean)) },
			want: func(in []mx) []mx {
				d := 1.0
				if mean {
					d = float64(len(a.v))
				}
				return scal(o(in[0], in[1]) / d)
			}}
	}
}

func seqLoss(f func(x, y []mat.Tensor, mean bool) mat.Tensor, o func(a, b mx) float64) func(r *run) graphCase {
	return func(r *run) graphCase {
		mean := r.rnd.Intn(2) == 0
		n := 1 + r.rnd.Intn(5)
		var in []mx
		for i := 0; i < n; i++ {
			in = append(in, r.mx(1+r.rnd.Intn(3), 1+r.rnd.Intn(3)))
		}
		for i := 0; i < n; i++ {
			in = append(in, r.mx(in[i].r, in[i].c))
		}
		return graphCase{desc: fmt.Sprint("mean=", mean), in: in,
			run: func(x []mat.Tensor) []mat.Tensor { a, b := half(x); return one1(f(a, b, mean)) },
			want: func(in []mx) []mx {
				a, b := half(in)
				s := 0.0
				for i := range a {
					s += o(a[i], b[i])
				}
				if mean {
					s /= float64(len(a))
				}
				return scal(s)
			}}
	}
}

func classLoss(f func(x mat.Tensor, c int, p float64) mat.Tensor, o func(x mx, c int, p float64) float64) func(r *run) graphCase {
	return func(r *run) graphCase {
		x := r.vecP()
		for len(x.v) < 2 {
			x = r.vecP()
		}
		c, p := r.rnd.Intn(len(x.v)), r.gamma()
		return graphCase{desc: fmt.Sprintf("class %d p %v", c, p), in: []mx{x},
			run:  func(x []mat.Tensor) []mat.Tensor { return one1(f(x[0], c, p)) },
			want: func(in []mx) []mx { return scal(o(in[0], c, p)) }}
	}
}

func anyLoss(f func(x mat.Tensor) mat.Tensor, o func(x mx) float64) func(r *run) graphCase {
	return func(r *run) graphCase {
		x := r.mx(r.dimP(), 1+r.rnd.Intn(3))
		return graphCase{in: []mx{x},
			run:  func(x []mat.Tensor) []mat.Tensor { return one1(f(x[0])) },
			want: func(in []mx) []mx { return scal(o(in[0])) }}
	}
}

func weightOf(n, c int) mx {
	return newMx(n, 1, func(i, _ int) float64 { return float64(1+(i*7+3)%5) / 8 })
}

var lossGens = []graphGen{
	{"losses.MSE", pairLoss(losses.MSE, mseOf)},
	{"losses.MAE", pairLoss(losses.MAE, maeOf)},
	{"losses.MSESeq", seqLoss(losses.MSESeq, mseOf)},
	{"losses.MAESeq", seqLoss(losses.MAESeq, maeOf)},
	{"losses.NLL", func(r *run) graphCase {
		x := r.pos(r.dimP(), 1)
		k := r.rnd.Intn(len(x.v))
		return graphCase{in: []mx{x, newMx(x.r, x.c, func(i, _ int) float64 {
			if i == k {
				return 1
			}
			return 0
		})}, run: func(x []mat.Tensor) []mat.Tensor { return one1(losses.NLL(x[0], x[1])) },
			want: func(in []mx) []mx {
				s := 0.0
				for i := range in[0].v {
					s -= in[1].v[i] * math.Log(in[0].v[i])
				}
				return scal(s)
			}}
	}},
	{"losses.CrossEntropy", classLoss(func(x mat.Tensor, c int, p float64) mat.Tensor { return losses.CrossEntropy(x, c) },
		func(x mx, c int, p float64) float64 { return ceOf(x, c) })},
	{"losses.Perplexity", classLoss(func(x mat.Tensor, c int, p float64) mat.Tensor { return losses.Perplexity(x, c) },
		func(x mx, c int, p float64) float64 { return math.Exp(ceOf(x, c)) })},
	{"losses.FocalLoss", classLoss(losses.FocalLoss, focalOf)},
	{"losses.WeightedCrossEntropy", classLoss(func(x mat.Tensor, c int, p float64) mat.Tensor {
		n := x.Size()
		w := buildAs(is32(x.Value()), weightOf(n, 0))
		return losses.WeightedCrossEntropy(w)(x, c)
	}, func(x mx, c int, p float64) float64 { return weightOf(len(x.v), 0).v[c] * ceOf(x, c) })},
	{"losses.WeightedFocalLoss", classLoss(func(x mat.Tensor, c int, p float64) mat.Tensor {
		n := x.Size()
		w := buildAs(is32(x.Value()), weightOf(n, 0))
		return losses.WeightedFocalLoss(w)(x, c, p)
	}, func(x mx, c int, p float64) float64 { return weightOf(len(x.v), 0).v[c] * focalOf(x, c, p) })},
	{"losses.ZeroOneQuantization", anyLoss(losses.ZeroOneQuantization, zoq)},
	{"losses.Norm2Quantization", anyLoss(losses.Norm2Quantization, n2q)},
	{"losses.OneHotQuantization", anyLoss(func(x mat.Tensor) mat.Tensor { return losses.OneHotQuantization(x, 0.25) },
		func(x mx) float64 { return 0.25 * (zoq(x) + n2q(x)) })},
	{"losses.Distance", func(r *run) graphCase {
		t := r.val()
		return graphCase{desc: fmt.Sprint("target ", t), in: []mx{r.mx(1, 1)},
			run:  func(x []mat.Tensor) []mat.Tensor { return one1(losses.Distance(x[0], t)) },
			want: func(in []mx) []mx { return scal(math.Abs(t - in[0].v[0])) }}
	}},
	{"losses.CrossEntropySeq", func(r *run) graphCase {
		n := 1 + r.rnd.Intn(5)
		mean := r.rnd.Intn(2) == 0
		var in []mx
		var cs []int
		for i := 0; i < n; i++ {
			x := r.vecP()
			in, cs = append(in, x), append(cs, r.rnd.Intn(len(x.v)))
		}
		return graphCase{desc: fmt.Sprint("mean=", mean, " classes ", cs), in: in,
			run: func(x []mat.Tensor) []mat.Tensor { return one1(losses.CrossEntropySeq(x, cs, mean)) },
			want: func(in []mx) []mx {
				s := 0.0
				for i := range in {
					s += ceOf(in[i], cs[i])
				}
				if mean {
					s /= float64(n)
				}
				return scal(s)
			}}
	}},
	{"losses.SPG", func(r *run) graphCase {
		n := 1 + r.rnd.Intn(4)
		var in []mx
		for i := 0; i < 2*n; i++ {
			in = append(in, r.mx(1, 1))
		}
		return graphCase{in: in,
			run: func(x []mat.Tensor) []mat.Tensor { a, b := half(x); return one1(losses.SPG(a, b)) },
			want: func(in []mx) []mx {
				a, b := half(in)
				s := 0.0
				for i := range a {
					s -= a[i].v[0] * b[i].v[0]
				}
				return scal(s)
			}}
	}},
}

func TestReplayC18(t *testing.T)  { runGraphs(t, "C18", lossGens, 60) }
func TestBoundedC18(t *testing.T) { runGraphs(t, "C18", lossGens, 40) }
