package zzverif

import (
	"fmt"
	"math"
	"testing"

	"github.com/nlpodyssey/spago/mat"
	g "github.com/nlpodyssey/spago/mat/gradfn"
	srand "github.com/nlpodyssey/spago/mat/rand"
)

// node is an operand that records what is posted to it.
type node struct {
	mat.Matrix
	req bool
	got []mx
}

func (n *node) Value() mat.Tensor     { return n.Matrix }
func (n *node) RequiresGrad() bool    { return n.req }
func (n *node) AccGrad(gx mat.Tensor) { n.got = append(n.got, toMx(gx)) }
func (n *node) HasGrad() bool         { return len(n.got) > 0 }
func (n *node) ZeroGrad()             { n.got = nil }
func (n *node) Grad() mat.Tensor      { return nil }

// total is the sum of the posted gradients.
func (n *node) total() (mx, bool) {
	if len(n.got) == 0 {
		return mx{}, false
	}
	t := mx{r: n.got[0].r, c: n.got[0].c, v: append([]float64(nil), n.got[0].v...)}
	for _, o := range n.got[1:] {
		if !o.same(t) {
			return o, true
		}
		for i := range t.v {
			t.v[i] += o.v[i]
		}
	}
	return t, true
}

type gradFn interface {
	Forward() (mat.Tensor, error)
	Backward(gy mat.Tensor) error
}

type gradIn struct {
	x  []mx
	ip []int
	fp []float64
}

type gradOp struct {
	name   string
	act    bool // an activation
	gen    func(r *run) gradIn
	bad    func(in gradIn) bool
	mk     func(x []mat.Tensor, in gradIn) gradFn
	want   func(in gradIn) mx
	noGrad map[int]bool // operands that are parameters without gradient
	tol    float64
	gyVec  bool // a row for a column is accepted as output gradient
	noVJP  bool
	unary  bool // posts one gradient of the operand's shape per call
	far    bool // also operands of very large or small magnitude
}

func okGrad(in gradIn) bool { return false }

func gsc(name string, act bool, k func(x, a mat.Tensor) gradFn, f func(x, a float64) float64, noA bool) gradOp {
	o := gradOp{name: name, act: act,
		gen: func(r *run) gradIn {
			a := col(r.pos(1, 1).v[0])
			in := gradIn{x: []mx{r.kinkFree(r.dim1(), r.dim1()), a}}
			if r.rnd.Intn(12) == 0 {
				in.x[1] = r.pos(2, 1)
			}
			return in
		},
		bad:  func(in gradIn) bool { return len(in.x[1].v) != 1 },
		mk:   func(x []mat.Tensor, in gradIn) gradFn { return k(x[0], x[1]) },
		want: func(in gradIn) mx { return lift(in.x[0], func(v float64) float64 { return f(v, in.x[1].v[0]) }) },
	}
	if noA {
		o.noGrad = map[int]bool{1: true}
	}
	return o
}

func gsc2(name string, k func(x, a, b mat.Tensor) gradFn, f func(x, a, b float64) float64) gradOp {
	return gradOp{name: name, act: true,
		gen: func(r *run) gradIn {
			in := gradIn{x: []mx{r.kinkFree(r.dim1(), r.dim1()), r.pos(1, 1), r.pos(1, 1)}}
			if r.rnd.Intn(12) == 0 {
				in.x[1+r.rnd.Intn(2)] = r.pos(1, 2)
			}
			return in
		},
		bad: func(in gradIn) bool { return len(in.x[1].v) != 1 || len(in.x[2].v) != 1 },
		mk:  func(x []mat.Tensor, in gradIn) gradFn { return k(x[0], x[1], x[2]) },
		want: func(in gradIn) mx {
			return lift(in.x[0], func(v float64) float64 { return f(v, in.x[1].v[0], in.x[2].v[0]) })
		},
		noGrad: map[int]bool{1: true, 2: true},
	}
}

// dim1 draws a dimension, zero included now and then.
func (r *run) dim1() int { return r.dim() }

// kinkFree draws values of many magnitudes, none of them at a corner of the
// usual functions.
func (r *run) kinkFree(rows, cols int) mx {
	return newMx(rows, cols, func(i, j int) float64 {
		v := r.rnd.Float64()*8 - 4
		if r.rnd.Intn(6) == 0 {
			v *= 3
		}
		v = math.Round(v*4096)/4096 + 1.0/8192
		return v
	})
}

func (r *run) posKF(rows, cols int) mx {
	return lift(r.kinkFree(rows, cols), func(x float64) float64 { return math.Abs(x) + 0.25 })
}

func gun(name string, act bool, gen func(r *run) mx, k func(x mat.Tensor) gradFn, f func(x float64) float64) gradOp {
	if gen == nil {
		gen = func(r *run) mx { return r.kinkFree(r.dim1(), r.dim1()) }
	}
	return gradOp{name: name, act: act, bad: okGrad,
		gen:  func(r *run) gradIn { return gradIn{x: []mx{gen(r)}} },
		mk:   func(x []mat.Tensor, in gradIn) gradFn { return k(x[0]) },
		want: func(in gradIn) mx { return lift(in.x[0], f) }}
}

func gbin(name string, k func(x, y mat.Tensor) gradFn, f func(x, y float64) float64) gradOp {
	return gradOp{name: name,
		gen: func(r *run) gradIn {
			a := r.kinkFree(r.dim1(), r.dim1())
			b := r.kinkFree(a.r, a.c)
			for i := range b.v {
				b.v[i] += 1.0 / 65536
			}
			switch r.rnd.Intn(10) {
			case 0:
				b = r.kinkFree(a.c, a.r)
			case 1:
				b = r.kinkFree(a.r+1, a.c)
			}
			return gradIn{x: []mx{a, b}}
		},
		bad:  func(in gradIn) bool { return !in.x[0].same(in.x[1]) },
		mk:   func(x []mat.Tensor, in gradIn) gradFn { return k(x[0], x[1]) },
		want: func(in gradIn) mx { return lift2(in.x[0], in.x[1], f) }}
}

func mulMx(a, b mx) mx {
	return newMx(a.r, b.c, func(i, j int) float64 {
		s := 0.0
		for k := 0; k < a.c; k++ {
			s += a.at(i, k) * b.at(k, j)
		}
		return s
	})
}

func addMx(a, b mx) mx { return lift2(a, b, func(x, y float64) float64 { return x + y }) }

func (r *run) vecKF() mx {
	n := r.dim1()
	if r.rnd.Intn(2) == 0 {
		return r.kinkFree(n, 1)
	}
	return r.kinkFree(1, n)
}

// sparseMax is the projection on the simplex, by bisection.
func sparseMax(v []float64) ([]float64, float64) {
	if len(v) == 0 {
		return nil, 0
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, x := range v {
		lo, hi = math.Min(lo, x-1), math.Max(hi, x)
	}
	for k := 0; k < 200; k++ {
		mid := (lo + hi) / 2
		s := 0.0
		for _, x := range v {
			s += math.Max(0, x-mid)
		}
		if s > 1 {
			lo = mid
		} else {
			hi = mid
		}
	}
	tau := (lo + hi) / 2
	out := make([]float64, len(v))
	for i, x := range v {
		out[i] = math.Max(0, x-tau)
	}
	return out, tau
}

func like(a mx, v []float64) mx { return mx{r: a.r, c: a.c, v: v} }

func sgm(x float64) float64 { return 1 / (1 + math.Exp(-x)) }

func fx(f gradFn) gradFn { return f }

var gradOps = []gradOp{
	gbin("Add", func(x, y mat.Tensor) gradFn { return g.NewAdd(x, y) }, func(x, y float64) float64 { return x + y }),
	gbin("Sub", func(x, y mat.Tensor) gradFn { return g.NewSub(x, y) }, func(x, y float64) float64 { return x - y }),
	gbin("Prod", func(x, y mat.Tensor) gradFn { return g.NewProd(x, y) }, func(x, y float64) float64 { return x * y }),
	gbin("Div", func(x, y mat.Tensor) gradFn { return g.NewDiv(x, y) }, func(x, y float64) float64 { return x / y }),
	gbin("Max", func(x, y mat.Tensor) gradFn { return g.NewMax(x, y) }, math.Max),
	gbin("Min", func(x, y mat.Tensor) gradFn { return g.NewMin(x, y) }, math.Min),
	gsc("AddScalar", false, func(x, a mat.Tensor) gradFn { return g.NewAddScalar(x, a) }, func(x, a float64) float64 { return x + a }, false),
	gsc("SubScalar", false, func(x, a mat.Tensor) gradFn { return g.NewSubScalar(x, a) }, func(x, a float64) float64 { return x - a }, false),
	gsc("ReverseSubScalar", false, func(x, a mat.Tensor) gradFn { return g.NewReverseSubScalar(x, a) }, func(x, a float64) float64 { return a - x }, false),
	gsc("ProdScalar", false, func(x, a mat.Tensor) gradFn { return g.NewProdScalar(x, a) }, func(x, a float64) float64 { return x * a }, false),
	gsc("DivScalar", false, func(x, a mat.Tensor) gradFn { return g.NewDivScalar(x, a) }, func(x, a float64) float64 { return x / a }, false),
	{name: "Dot",
		gen: func(r *run) gradIn {
			a := r.kinkFree(r.dim1(), r.dim1())
			in := gradIn{x: []mx{a, r.kinkFree(a.r, a.c)}}
			if r.rnd.Intn(10) == 0 {
				in.x[1] = r.kinkFree(a.c, a.r)
			}
			return in
		},
		bad: func(in gradIn) bool { return !in.x[0].same(in.x[1]) },
		mk:  func(x []mat.Tensor, in gradIn) gradFn { return g.NewDot(x[0], x[1]) },
		want: func(in gradIn) mx {
			s := 0.0
			for i := range in.x[0].v {
				s += in.x[0].v[i] * in.x[1].v[i]
			}
			return col(s)
		}},
	{name: "Mul",
		gen: func(r *run) gradIn {
			a := r.kinkFree(r.dim1(), r.dim1())
			b := r.kinkFree(a.c, r.dim1())
			switch r.rnd.Intn(10) {
			case 0:
				b = r.kinkFree(a.c+1, b.c)
			case 1:
				b = r.kinkFree(a.c, 1)
			}
			return gradIn{x: []mx{a, b}}
		},
		bad:  func(in gradIn) bool { return in.x[0].c != in.x[1].r },
		mk:   func(x []mat.Tensor, in gradIn) gradFn { return g.NewMul(x[0], x[1]) },
		want: func(in gradIn) mx { return mulMx(in.x[0], in.x[1]) }},
	{name: "MulT",
		gen: func(r *run) gradIn {
			a := r.kinkFree(r.dim1(), r.dim1())
			b := r.kinkFree(a.r, 1)
			switch r.rnd.Intn(10) {
			case 0:
				b = r.kinkFree(a.r+1, 1)
			case 1:
				b = r.kinkFree(a.r, 2)
			}
			return gradIn{x: []mx{a, b}}
		},
		bad:  func(in gradIn) bool { return in.x[0].r != in.x[1].r || in.x[1].c != 1 },
		mk:   func(x []mat.Tensor, in gradIn) gradFn { return g.NewMulT(x[0], x[1]) },
		want: func(in gradIn) mx { return mulMx(tr(in.x[0]), in.x[1]) }},
	gun("Exp", false, nil, func(x mat.Tensor) gradFn { return g.NewExp(x) }, math.Exp),
	gun("Log", false, func(r *run) mx { return r.posKF(r.dim1(), r.dim1()) }, func(x mat.Tensor) gradFn { return g.NewLog(x) }, math.Log),
	gun("Sqrt", false, func(r *run) mx { return r.posKF(r.dim1(), r.dim1()) }, func(x mat.Tensor) gradFn { return g.NewSqrt(x) }, math.Sqrt),
	gun("Square", false, nil, func(x mat.Tensor) gradFn { return g.NewSquare(x) }, func(x float64) float64 { return x * x }),
	gun("Copy", false, nil, func(x mat.Tensor) gradFn { return g.NewCopy(x) }, func(x float64) float64 { return x }),
	{name: "Pow", bad: okGrad,
		gen: func(r *run) gradIn {
			return gradIn{x: []mx{r.posKF(r.dim1(), r.dim1())}, fp: []float64{float64(r.rnd.Intn(13))/2 - 2}}
		},
		mk:   func(x []mat.Tensor, in gradIn) gradFn { return g.NewPow(x[0], in.fp[0]) },
		want: func(in gradIn) mx { return lift(in.x[0], func(v float64) float64 { return math.Pow(v, in.fp[0]) }) }},
	gun("Tan", true, func(r *run) mx {
		return lift(r.kinkFree(r.dim1(), r.dim1()), func(v float64) float64 { return v / 12 })
	}, func(x mat.Tensor) gradFn { return g.NewTan(x) }, math.Tan),
	gun("Cos", true, nil, func(x mat.Tensor) gradFn { return g.NewCos(x) }, math.Cos),
	gun("Sin", true, nil, func(x mat.Tensor) gradFn { return g.NewSin(x) }, math.Sin),
	gun("Neg", true, nil, func(x mat.Tensor) gradFn { return g.NewNeg(x) }, func(x float64) float64 { return -x }),
	gun("Reciprocal", true, nil, func(x mat.Tensor) gradFn { return g.NewReciprocal(x) }, func(x float64) float64 { return 1 / x }),
	gun("Abs", true, nil, func(x mat.Tensor) gradFn { return g.NewAbs(x) }, math.Abs),
	gun("Tanh", true, nil, func(x mat.Tensor) gradFn { return g.NewTanh(x) }, math.Tanh),
	gun("Sigmoid", true, nil, func(x mat.Tensor) gradFn { return g.NewSigmoid(x) }, sgm),
	gun("HardSigmoid", true, nil, func(x mat.Tensor) gradFn { return g.NewHardSigmoid(x) }, func(x float64) float64 { return math.Max(0, math.Min(1, 0.2*x+0.5)) }),
	gun("HardTanh", true, nil, func(x mat.Tensor) gradFn { return g.NewHardTanh(x) }, func(x float64) float64 { return math.Max(-1, math.Min(1, x)) }),
	gun("ReLU", true, nil, func(x mat.Tensor) gradFn { return g.NewReLU(x) }, func(x float64) float64 { return math.Max(0, x) }),
	gun("Softsign", true, nil, func(x mat.Tensor) gradFn { return g.NewSoftsign(x) }, func(x float64) float64 { return x / (1 + math.Abs(x)) }),
	gun("Mish", true, nil, func(x mat.Tensor) gradFn { return g.NewMish(x) }, func(x float64) float64 { return x * math.Tanh(math.Log1p(math.Exp(x))) }),
	gun("SiLU", true, nil, func(x mat.Tensor) gradFn { return g.NewSiLU(x) }, func(x float64) float64 { return x * sgm(x) }),
	gun("Swish", true, nil, func(x mat.Tensor) gradFn { return g.NewSwish(x) }, func(x float64) float64 { return x * sgm(x) }),
	func() gradOp {
		o := gun("GELU", true, nil, func(x mat.Tensor) gradFn { return g.NewGELU(x) }, func(x float64) float64 {
			return 0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*x*x*x)))
		})
		o.tol = 2e-4
		return o
	}(),
	gsc("SwishB", true, func(x, a mat.Tensor) gradFn { return g.NewSwishB(x, a) }, func(x, a float64) float64 { return x * sgm(a*x) }, false),
	gsc("CELU", true, func(x, a mat.Tensor) gradFn { return g.NewCELU(x, a) }, func(x, a float64) float64 {
		return math.Max(0, x) + math.Min(0, a*(math.Exp(x/a)-1))
	}, true),
	gsc("ELU", true, func(x, a mat.Tensor) gradFn { return g.NewELU(x, a) }, func(x, a float64) float64 {
		if x > 0 {
			return x
		}
		return a * (math.Exp(x) - 1)
	}, true),
	gsc("LeakyReLU", true, func(x, a mat.Tensor) gradFn { return g.NewLeakyReLU(x, a) }, func(x, a float64) float64 {
		if x > 0 {
			return x
		}
		return a * x
	}, true),
	gsc("SoftShrink", true, func(x, a mat.Tensor) gradFn { return g.NewSoftShrink(x, a) }, func(x, a float64) float64 {
		switch {
		case x < -a:
			return x + a
		case x > a:
			return x - a
		}
		return 0
	}, true),
	gsc2("SELU", func(x, a, b mat.Tensor) gradFn { return g.NewSELU(x, a, b) }, func(x, a, b float64) float64 {
		if x > 0 {
			return b * x
		}
		return b * a * (math.Exp(x) - 1)
	}),
	gsc2("SoftPlus", func(x, a, b mat.Tensor) gradFn { return g.NewSoftPlus(x, a, b) }, func(x, a, b float64) float64 {
		if x > b {
			return x
		}
		return math.Log(1+math.Exp(a*x)) / a
	}),
	gsc2("Threshold", func(x, a, b mat.Tensor) gradFn { return g.NewThreshold(x, a, b) }, func(x, a, b float64) float64 {
		if x > a {
			return x
		}
		return b
	}),
	{name: "At",
		gen: func(r *run) gradIn {
			x := r.kinkFree(1+r.rnd.Intn(5), 1+r.rnd.Intn(5))
			ip := []int{r.rnd.Intn(x.r + 1), r.rnd.Intn(x.c)}
			if r.rnd.Intn(3) == 0 {
				x = r.kinkFree(1+r.rnd.Intn(5), 1)
				ip = []int{r.rnd.Intn(x.r + 1)}
			}
			return gradIn{x: []mx{x}, ip: ip}
		},
		bad:  func(in gradIn) bool { return badIdx(in.x[0], in.ip) },
		mk:   func(x []mat.Tensor, in gradIn) gradFn { return g.NewAt(x[0], in.ip...) },
		want: func(in gradIn) mx { return col(in.x[0].v[flat(in.x[0], in.ip)]) }},
	{name: "ColView", gyVec: true,
		gen: func(r *run) gradIn {
			x := r.kinkFree(r.rnd.Intn(5), 1+r.rnd.Intn(5))
			return gradIn{x: []mx{x}, ip: []int{r.rnd.Intn(x.c + 1)}}
		},
		bad: func(in gradIn) bool { return in.ip[0] < 0 || in.ip[0] >= in.x[0].c },
		mk:  func(x []mat.Tensor, in gradIn) gradFn { return g.NewColView(x[0], in.ip[0]) },
		want: func(in gradIn) mx {
			return newMx(in.x[0].r, 1, func(i, j int) float64 { return in.x[0].at(i, in.ip[0]) })
		}},
	{name: "RowView", gyVec: true,
		gen: func(r *run) gradIn {
			x := r.kinkFree(1+r.rnd.Intn(5), r.rnd.Intn(5))
			return gradIn{x: []mx{x}, ip: []int{r.rnd.Intn(x.r + 1)}}
		},
		bad: func(in gradIn) bool { return in.ip[0] < 0 || in.ip[0] >= in.x[0].r },
		mk:  func(x []mat.Tensor, in gradIn) gradFn { return g.NewRowView(x[0], in.ip[0]) },
		want: func(in gradIn) mx {
			return newMx(1, in.x[0].c, func(i, j int) float64 { return in.x[0].at(in.ip[0], j) })
		}},
	{name: "Flatten", gyVec: true, bad: okGrad,
		gen:  func(r *run) gradIn { return gradIn{x: []mx{r.kinkFree(r.dim1(), r.dim1())}} },
		mk:   func(x []mat.Tensor, in gradIn) gradFn { return g.NewFlatten(x[0]) },
		want: func(in gradIn) mx { return mx{r: 1, c: len(in.x[0].v), v: in.x[0].v} }},
	{name: "Reshape",
		gen: func(r *run) gradIn {
			a, b, c := r.rnd.Intn(4), r.rnd.Intn(4), 1+r.rnd.Intn(4)
			in := gradIn{x: []mx{r.kinkFree(a*c, b)}, ip: []int{a, c * b}}
			if r.rnd.Intn(8) == 0 {
				in.ip[r.rnd.Intn(2)]++
			}
			return in
		},
		bad:  func(in gradIn) bool { return in.ip[0]*in.ip[1] != len(in.x[0].v) },
		mk:   func(x []mat.Tensor, in gradIn) gradFn { return g.NewReshape(x[0], in.ip[0], in.ip[1]) },
		want: func(in gradIn) mx { return mx{r: in.ip[0], c: in.ip[1], v: in.x[0].v} }},
	{name: "Transpose", bad: okGrad,
		gen:  func(r *run) gradIn { return gradIn{x: []mx{r.kinkFree(r.dim1(), r.dim1())}} },
		mk:   func(x []mat.Tensor, in gradIn) gradFn { return g.NewTranspose(x[0]) },
		want: func(in gradIn) mx { return tr(in.x[0]) }},
	{name: "Slice",
		gen: func(r *run) gradIn {
			x := r.kinkFree(1+r.rnd.Intn(6), 1+r.rnd.Intn(6))
			a, b := r.rnd.Intn(x.r), r.rnd.Intn(x.c)
			in := gradIn{x: []mx{x}, ip: []int{a, b, a + r.rnd.Intn(x.r-a+1), b + r.rnd.Intn(x.c-b+1)}}
			if r.rnd.Intn(8) == 0 {
				in.ip[r.rnd.Intn(4)] += 1 + r.rnd.Intn(2)
			}
			return in
		},
		bad: func(in gradIn) bool {
			p, x := in.ip, in.x[0]
			return p[0] >= x.r || p[1] >= x.c || p[2] > x.r || p[3] > x.c || p[2] < p[0] || p[3] < p[1]
		},
		mk: func(x []mat.Tensor, in gradIn) gradFn {
			return g.NewSlice(x[0], in.ip[0], in.ip[1], in.ip[2], in.ip[3])
		},
		want: func(in gradIn) mx {
			p := in.ip
			return newMx(p[2]-p[0], p[3]-p[1], func(i, j int) float64 { return in.x[0].at(p[0]+i, p[1]+j) })
		}},
	{name: "RotateR",
		gen: func(r *run) gradIn {
			x := r.kinkFree(r.rnd.Intn(9), 1)
			return gradIn{x: []mx{x}, ip: []int{r.rnd.Intn(x.r + 2)}}
		},
		bad: func(in gradIn) bool { return in.ip[0] > in.x[0].r },
		mk:  func(x []mat.Tensor, in gradIn) gradFn { return g.NewRotateR(x[0], in.ip[0]) },
		want: func(in gradIn) mx {
			n := in.x[0].r
			return newMx(n, 1, func(i, j int) float64 { return in.x[0].v[(i-in.ip[0]+2*n)%n] })
		}},
	{name: "ReduceSum", bad: okGrad,
		gen:  func(r *run) gradIn { return gradIn{x: []mx{r.kinkFree(r.dim1(), r.dim1())}} },
		mk:   func(x []mat.Tensor, in gradIn) gradFn { return g.NewReduceSum(x[0]) },
		want: func(in gradIn) mx { return col(sumv(in.x[0].v)) }},
	{name: "ReduceMean", bad: okGrad,
		gen:  func(r *run) gradIn { return gradIn{x: []mx{r.kinkFree(1+r.rnd.Intn(6), 1+r.rnd.Intn(6))}} },
		mk:   func(x []mat.Tensor, in gradIn) gradFn { return g.NewReduceMean(x[0]) },
		want: func(in gradIn) mx { return col(sumv(in.x[0].v) / float64(len(in.x[0].v))) }},
	{name: "ReduceMax",
		gen: func(r *run) gradIn {
			x := r.vecKF()
			if r.rnd.Intn(10) == 0 {
				x = r.kinkFree(2, 2)
			}
			return gradIn{x: []mx{x}}
		},
		bad: func(in gradIn) bool { return !in.x[0].vec() || len(in.x[0].v) == 0 },
		mk:  func(x []mat.Tensor, in gradIn) gradFn { return g.NewReduceMax(x[0]) },
		want: func(in gradIn) mx {
			m := math.Inf(-1)
			for _, v := range in.x[0].v {
				m = math.Max(m, v)
			}
			return col(m)
		}},
	{name: "Softmax", gyVec: true,
		gen: func(r *run) gradIn {
			x := r.vecKF()
			if r.rnd.Intn(10) == 0 {
				x = r.kinkFree(2, 2)
			}
			return gradIn{x: []mx{x}}
		},
		bad:  func(in gradIn) bool { return !in.x[0].vec() },
		mk:   func(x []mat.Tensor, in gradIn) gradFn { return g.NewSoftmax(x[0]) },
		want: func(in gradIn) mx { return col(softmaxOf(in.x[0].v)...) }},
	{name: "ScalarMax",
		gen: func(r *run) gradIn {
			n := r.rnd.Intn(6)
			in := gradIn{}
			for i := 0; i < n; i++ {
				in.x = append(in.x, r.kinkFree(1, 1))
			}
			if n > 0 && r.rnd.Intn(10) == 0 {
				in.x[n-1] = r.kinkFree(2, 1)
			}
			return in
		},
		bad: func(in gradIn) bool {
			for _, x := range in.x {
				if len(x.v) != 1 {
					return true
				}
			}
			return len(in.x) == 0
		},
		mk: func(x []mat.Tensor, in gradIn) gradFn { return g.NewScalarMax(x) },
		want: func(in gradIn) mx {
			m := math.Inf(-1)
			for _, x := range in.x {
				m = math.Max(m, x.v[0])
			}
			return col(m)
		}},
	{name: "Stack",
		gen: func(r *run) gradIn {
			n, c := r.rnd.Intn(5), r.rnd.Intn(5)
			in := gradIn{}
			for i := 0; i < n; i++ {
				x := r.kinkFree(1, c)
				if r.rnd.Intn(2) == 0 {
					x = r.kinkFree(c, 1)
				}
				in.x = append(in.x, x)
			}
			if n > 0 && r.rnd.Intn(10) == 0 {
				in.x[n-1] = r.kinkFree(c+1, 1)
			}
			return in
		},
		bad: func(in gradIn) bool {
			for _, x := range in.x {
				if !x.vec() || len(x.v) != len(in.x[0].v) {
					return true
				}
			}
			return len(in.x) == 0
		},
		mk: func(x []mat.Tensor, in gradIn) gradFn { return g.NewStack(x) },
		want: func(in gradIn) mx {
			return newMx(len(in.x), len(in.x[0].v), func(i, j int) float64 { return in.x[i].v[j] })
		}},
	{name: "AppendRows",
		gen: func(r *run) gradIn {
			x := r.kinkFree(r.rnd.Intn(4), 1+r.rnd.Intn(4))
			in := gradIn{x: []mx{x}}
			for n := r.rnd.Intn(4); n > 0; n-- {
				in.x = append(in.x, r.kinkFree(1, x.c))
			}
			if len(in.x) > 1 && r.rnd.Intn(10) == 0 {
				in.x[1] = r.kinkFree(1, x.c+1)
			}
			if x.r == 0 && len(in.x) == 1 {
				in.x[0] = r.kinkFree(2, x.c)
			}
			return in
		},
		bad: func(in gradIn) bool {
			for _, v := range in.x[1:] {
				if !v.vec() || len(v.v) != in.x[0].c {
					return true
				}
			}
			return false
		},
		mk: func(x []mat.Tensor, in gradIn) gradFn { return g.NewAppendRows(x[0], x[1:]...) },
		want: func(in gradIn) mx {
			return newMx(in.x[0].r+len(in.x)-1, in.x[0].c, func(i, j int) float64 {
				if i < in.x[0].r {
					return in.x[0].at(i, j)
				}
				return in.x[1+i-in.x[0].r].v[j]
			})
		}},
	{name: "Concat", gyVec: true,
		gen: func(r *run) gradIn {
			in := gradIn{}
			for n := r.rnd.Intn(5); n > 0; n-- {
				in.x = append(in.x, r.vecKF())
			}
			return in
		},
		bad: func(in gradIn) bool {
			for _, x := range in.x {
				if !x.vec() {
					return true
				}
			}
			return len(in.x) == 0
		},
		mk: func(x []mat.Tensor, in gradIn) gradFn { return g.NewConcat(x) },
		want: func(in gradIn) mx {
			var v []float64
			for _, x := range in.x {
				v = append(v, x.v...)
			}
			return col(v...)
		}},
	{name: "Affine",
		gen: func(r *run) gradIn {
			m, c := r.dim1(), r.rnd.Intn(4)
			if r.rnd.Intn(2) == 0 {
				c = 1
			}
			in := gradIn{x: []mx{r.kinkFree(m, c)}}
			for n := 1 + r.rnd.Intn(3); n > 0; n-- {
				k := r.dim1()
				in.x = append(in.x, r.kinkFree(m, k), r.kinkFree(k, c))
			}
			switch r.rnd.Intn(12) {
			case 0:
				in.x[0] = r.kinkFree(m+1, c)
			case 1:
				in.x[len(in.x)-1] = r.kinkFree(in.x[len(in.x)-1].r+1, c)
			}
			return in
		},
		bad: func(in gradIn) bool {
			for i := 1; i < len(in.x); i += 2 {
				if in.x[i].c != in.x[i+1].r || in.x[i].r != in.x[0].r || in.x[i+1].c != in.x[0].c {
					return true
				}
			}
			return false
		},
		mk: func(x []mat.Tensor, in gradIn) gradFn { return g.NewAffine(x[0], x[1], x[2], x[3:]...) },
		want: func(in gradIn) mx {
			y := in.x[0]
			for i := 1; i < len(in.x); i += 2 {
				y = addMx(y, mulMx(in.x[i], in.x[i+1]))
			}
			return y
		}},
	{name: "MaxPooling", far: true,
		gen: func(r *run) gradIn {
			p, q := 1+r.rnd.Intn(3), 1+r.rnd.Intn(3)
			in := gradIn{x: []mx{r.kinkFree(p*r.rnd.Intn(4), q*r.rnd.Intn(4))}, ip: []int{p, q}}
			if r.rnd.Intn(8) == 0 {
				in.ip[0]++
			}
			return in
		},
		bad: func(in gradIn) bool { return in.x[0].r%in.ip[0] != 0 || in.x[0].c%in.ip[1] != 0 },
		mk:  func(x []mat.Tensor, in gradIn) gradFn { return g.NewMaxPooling(x[0], in.ip[0], in.ip[1]) },
		want: func(in gradIn) mx {
			p, q := in.ip[0], in.ip[1]
			return newMx(in.x[0].r/p, in.x[0].c/q, func(i, j int) float64 {
				m := math.Inf(-1)
				for a := 0; a < p; a++ {
					for b := 0; b < q; b++ {
						m = math.Max(m, in.x[0].at(i*p+a, j*q+b))
					}
				}
				return m
			})
		}},
	{name: "SparseMax", act: true, gyVec: true,
		gen: func(r *run) gradIn { return gradIn{x: []mx{r.kinkFree(1+r.rnd.Intn(8), 1)}} },
		bad: okGrad,
		mk:  func(x []mat.Tensor, in gradIn) gradFn { return g.NewSparseMax(x[0]) },
		want: func(in gradIn) mx {
			v, _ := sparseMax(in.x[0].v)
			return like(in.x[0], v)
		}},
	{name: "SparseMaxLoss", gyVec: true,
		gen: func(r *run) gradIn { return gradIn{x: []mx{r.kinkFree(1+r.rnd.Intn(8), 1)}} },
		bad: okGrad,
		mk:  func(x []mat.Tensor, in gradIn) gradFn { return g.NewSparseMaxLoss(x[0]) },
		want: func(in gradIn) mx {
			_, tau := sparseMax(in.x[0].v)
			s := 0.0
			for _, z := range in.x[0].v {
				if z > tau {
					s += z*z - tau*tau
				}
			}
			return lift(in.x[0], func(z float64) float64 { return z - (0.5*s + 0.5) })
		}},
}

func (in gradIn) String() string {
	return fmt.Sprintf("operands %v, integers %v, reals %v", in.x, in.ip, in.fp)
}

// vjp computes the vector-Jacobian product of the oracle by differences; where
// the two one-sided slopes disagree the coordinate is skipped (NaN).
func vjp(want func(in gradIn) mx, in gradIn, k int, gy mx) mx {
	out := mx{r: in.x[k].r, c: in.x[k].c, v: make([]float64, len(in.x[k].v))}
	mag := 0.0
	dot := func() float64 {
		y := want(in)
		s := 0.0
		mag = 0
		for i := range y.v {
			s += y.v[i] * gy.v[i]
			mag += math.Abs(y.v[i] * gy.v[i])
		}
		return s
	}
	for i := range out.v {
		x := in.x[k].v[i]
		h := 1e-6 * math.Max(1, math.Abs(x))
		if a := math.Abs(x); a > 0 && a < 1e-2 {
			h = 1e-4 * a
		}
		in.x[k].v[i] = x + h
		p := dot()
		in.x[k].v[i] = x - h
		m := dot()
		in.x[k].v[i] = x
		c := dot()
		d1, d2 := (p-c)/h, (c-m)/h
		out.v[i] = (p - m) / (2 * h)
		if math.Abs(d1-d2) > 1e-2*math.Max(1, math.Abs(d1)) || h < 1e-6 && 1e-15*mag/h > 1e-6*math.Max(1, math.Abs(d1)) {
			out.v[i] = math.NaN()
		}
	}
	return out
}

func cloneIn(in gradIn) gradIn {
	c := gradIn{ip: in.ip, fp: in.fp}
	for _, x := range in.x {
		c.x = append(c.x, mx{r: x.r, c: x.c, v: append([]float64(nil), x.v...)})
	}
	return c
}

// vary makes unusual operands of usual ones: small or large elements, and one
// tensor as several operands.
func (r *run) vary(o gradOp, in gradIn, f32 bool) (gradIn, []int) {
	alias := make([]int, len(in.x))
	for i := range alias {
		alias[i] = i
	}
	if len(in.x) == 0 || o.bad(in) {
		return in, alias
	}
	if o.far && r.rnd.Intn(3) == 0 {
		f := anyOf[float64](r, 1e10, 1e36, 1e-30)
		if !f32 {
			f = anyOf[float64](r, 1e10, 1e40, 1e200, 1e-200)
		}
		c := cloneIn(in)
		for i, v := range c.x[0].v {
			if r.rnd.Intn(4) > 0 {
				v = -math.Abs(v)
			}
			c.x[0].v[i] = v * f
		}
		return c, alias
	}
	usable := func(c gradIn) bool {
		if o.bad(c) {
			return false
		}
		for _, v := range o.want(c).v {
			if math.IsNaN(v) || math.Abs(v) > 1e8 {
				return false
			}
		}
		return true
	}
	if !usable(in) {
		return in, alias
	}
	if r.rnd.Intn(6) == 0 {
		k := r.rnd.Intn(len(in.x))
		f := []float64{1e-2, 1e-3, 1e-4, 10, 100}[r.rnd.Intn(5)]
		c := cloneIn(in)
		for i := range c.x[k].v {
			c.x[k].v[i] *= f
		}
		if usable(c) && (f < 1 || o.name != "Tan") {
			return c, alias
		}
	}
	// the gradients of Max and Min at equal elements are a convention
	if len(in.x) > 1 && r.rnd.Intn(5) == 0 && o.name != "Max" && o.name != "Min" {
		p := r.rnd.Perm(len(in.x))
		i, j := min(p[0], p[1]), max(p[0], p[1])
		if in.x[i].same(in.x[j]) && !o.noGrad[i] && !o.noGrad[j] {
			c := cloneIn(in)
			copy(c.x[j].v, c.x[i].v)
			if usable(c) {
				in = c
				alias[j] = i
			}
		}
	}
	return in, alias
}

func gradCase(r *run, o gradOp, in gradIn, f32 bool) {
	r.n++
	tol := tolOf(f32)
	in, alias := r.vary(o, in, f32)
	if f32 {
		for k := range in.x {
			for i, v := range in.x[k].v {
				in.x[k].v[i] = float64(float32(v))
			}
		}
	}
	nodes := make([]*node, len(in.x))
	ts := make([]mat.Tensor, len(in.x))
	for i, x := range in.x {
		if alias[i] != i {
			nodes[i], ts[i] = nodes[alias[i]], ts[alias[i]]
			continue
		}
		var m mat.Matrix
		if f32 {
			m = build[float32](x)
		} else {
			m = build[float64](x)
		}
		nodes[i] = &node{Matrix: m, req: r.rnd.Intn(3) > 0}
		ts[i] = nodes[i]
	}
	var f gradFn
	var y mat.Tensor
	var err error
	p := catch(func() { f = o.mk(ts, in); y, err = f.Forward() })
	fwd := "C09"
	if o.act && r.prop == "C12" {
		fwd = "C12"
	}
	bwd := "C10"
	if o.act && r.prop == "C12" {
		bwd = "C12"
	}
	if o.bad(in) {
		if p == nil && err == nil {
			r.fail(fwd, o.name+".Forward", "unsuitable operands are accepted: %v", in)
		}
		return
	}
	if p != nil || err != nil {
		r.fail(fwd, o.name+".Forward", "panic %v error %v for %v", p, err, in)
		return
	}
	want := o.want(in)
	got := toMx(y)
	if len(want.v) > 0 && !eqMx(got, want, tol*10) || !got.same(want) {
		r.fail(fwd, o.name+".Forward", "value %v, want %v, for %v", got, want, in)
		return
	}
	for i, n := range nodes {
		if !identical(toMx(n.Matrix), in.x[i]) {
			r.fail(fwd, o.name+".Forward", "operand %d changed from %v to %v", i, in.x[i], toMx(n.Matrix))
			return
		}
	}
	// gradients of another shape: an error, and nothing is posted
	if r.rnd.Intn(3) == 0 && o.name != "SparseMax" {
		gr, gc := want.r, want.c
		switch r.rnd.Intn(5) {
		case 0:
			gr++
		case 1:
			gc++
		case 2:
			gr, gc = gr+1, gc+2
		case 3:
			gr, gc = gc, gr
		case 4:
			if gr > 0 {
				gr--
			}
		}
		bad := r.kinkFree(gr, gc)
		vecOK := bad.vec() && len(bad.v) == len(want.v) && (o.gyVec || len(want.v) == 1)
		if !bad.same(want) && !vecOK {
			p := catch(func() { err = f.Backward(build[float64](bad)) })
			someReq := false
			for i, n := range nodes {
				someReq = someReq || n.req && !o.noGrad[i]
			}
			if p != nil || err == nil && someReq {
				r.fail("C11", o.name+".Backward", "a %dx%d gradient for a %dx%d result: panic %v, error %v, for %v", gr, gc, want.r, want.c, p, err, in)
			}
			for i, n := range nodes {
				if len(n.got) > 0 {
					r.fail("C11", o.name+".Backward", "a %dx%d gradient for a %dx%d result posts %v to operand %d, for %v", gr, gc, want.r, want.c, n.got, i, in)
				}
				n.got = nil
			}
			if p != nil {
				return
			}
		}
	}
	gy := r.kinkFree(want.r, want.c)
	if f32 {
		gy = lift(gy, func(v float64) float64 { return float64(float32(v)) })
	}
	gm := build[float64](gy)
	if f32 {
		gm = build[float32](gy)
	}
	p = catch(func() { err = f.Backward(gm) })
	if p != nil || err != nil {
		r.fail(bwd, o.name+".Backward", "panic %v error %v for gradient %v, %v", p, err, gy, in)
		return
	}
	if !identical(toMx(gm), gy) {
		r.fail("C10", o.name+".Backward", "the output gradient %v changed to %v", gy, toMx(gm))
	}
	btol := 1e-5
	if o.tol > 0 {
		btol = o.tol
	}
	if f32 {
		btol = math.Max(btol, 2e-3)
	}
	for i, n := range nodes {
		if !identical(toMx(n.Matrix), in.x[i]) {
			r.fail("C10", o.name+".Backward", "operand %d changed from %v to %v", i, in.x[i], toMx(n.Matrix))
		}
		if alias[i] != i {
			continue
		}
		t, ok := n.total()
		if !n.req {
			if ok {
				r.fail("C11", o.name+".Backward", "operand %d does not require gradients and receives %v, for %v", i, t, in)
			}
			continue
		}
		if o.noGrad[i] {
			if ok {
				r.fail("C10", o.name+".Backward", "the parameter operand %d receives %v, for %v", i, t, in)
			}
			continue
		}
		for _, q := range n.got {
			if !q.same(in.x[i]) {
				r.fail("C11", o.name+".Backward", "operand %d is %dx%d and receives a %dx%d gradient, for %v", i, in.x[i].r, in.x[i].c, q.r, q.c, in)
				return
			}
		}
		wg := vjp(o.want, cloneIn(in), i, gy)
		for j, a := range alias {
			if j != i && a == i {
				wg = addMx(wg, vjp(o.want, cloneIn(in), j, gy))
			}
		}
		if !ok {
			// nothing posted counts as zero
			t = mx{r: in.x[i].r, c: in.x[i].c, v: make([]float64, len(in.x[i].v))}
			zero := true
			for _, v := range wg.v {
				zero = zero && (math.IsNaN(v) || math.Abs(v) < 1e-9)
			}
			if !zero {
				r.fail(bwd, o.name+".Backward", "operand %d requires gradients and receives none, for %v", i, in)
			}
			continue
		}
		scale := 1.0
		for _, v := range gy.v {
			scale = math.Max(scale, math.Abs(v))
		}
		for _, v := range want.v {
			if a := math.Abs(v); !math.IsInf(a, 0) {
				scale = math.Max(scale, a)
			}
		}
		for k := range wg.v {
			if math.IsNaN(wg.v[k]) || f32 && math.Abs(wg.v[k]) > 1e30 {
				continue
			}
			if math.IsNaN(t.v[k]) || math.Abs(t.v[k]-wg.v[k]) > btol*math.Max(scale, math.Abs(wg.v[k])) {
				r.fail(bwd, o.name+".Backward", "operand %d receives %v, the derivative is %v, for gradient %v, %v", i, t, wg, gy, in)
				break
			}
		}
	}
}

func runGradOps(r *run, use func(o gradOp) bool, rounds int) {
	for _, o := range gradOps {
		if !use(o) {
			continue
		}
		for k := 0; k < rounds; k++ {
			gradCase(r, o, o.gen(r), k%3 == 2)
		}
	}
}

func gradReplay(t *testing.T, prop string) {
	r := newRun(t, prop, agKinds(prop)...)
	runGradOps(r, func(o gradOp) bool { return prop != "C12" || o.act }, r.rounds(150))
	if prop != "C12" {
		dropout(r)
	}
	if prop != "C11" {
		runAgOps(r, prop == "C12", r.rounds(25))
	}
	r.done("random calls of every operator of mat/gradfn and ag, both element types, against plain formulas and their numeric derivatives")
}

func TestReplayC09(t *testing.T) { gradReplay(t, "C09") }
func TestReplayC10(t *testing.T) { gradReplay(t, "C10") }
func TestReplayC11(t *testing.T) { gradReplay(t, "C11") }
func TestReplayC12(t *testing.T) { gradReplay(t, "C12") }

// operators without a proved contract
var gradBounded = map[string]bool{"Concat": true, "Affine": true, "MaxPooling": true, "SparseMax": true, "SparseMaxLoss": true}

func gradBoundedRun(t *testing.T, prop string) {
	r := newRun(t, prop, agKinds(prop)...)
	runGradOps(r, func(o gradOp) bool { return gradBounded[o.name] }, r.rounds(500))
	dropout(r)
	pinned(r)
	if prop != "C11" {
		runAgOps(r, false, r.rounds(8))
	}
	r.done("random calls of every operator of ag; of the functions Concat, Affine, MaxPooling, SparseMax, SparseMaxLoss and Dropout, dimensions 0..34, both element types")
}

func TestBoundedC09(t *testing.T) { gradBoundedRun(t, "C09") }
func TestBoundedC10(t *testing.T) { gradBoundedRun(t, "C10") }
func TestBoundedC11(t *testing.T) { gradBoundedRun(t, "C11") }

// pinned covers two behaviours that the test suite asserts: the gradient of a
// column operand of AppendRows is a row, and SparseMax does not look at the
// shape of the output gradient.
func pinned(r *run) {
	r.n += 2
	a := &node{Matrix: build[float64](r.kinkFree(2, 3)), req: true}
	b := &node{Matrix: build[float64](r.kinkFree(3, 1)), req: true}
	f := g.NewAppendRows[mat.Tensor](a, b)
	var err error
	p := catch(func() {
		if _, err = f.Forward(); err == nil {
			err = f.Backward(build[float64](r.kinkFree(3, 3)))
		}
	})
	if p != nil || err != nil || len(b.got) != 1 {
		r.fail("C11", "AppendRows.Backward", "2x3 with a 3x1 column appended: panic %v, error %v, %d gradients", p, err, len(b.got))
	} else if b.got[0].r != 3 {
		r.fail("C11", "AppendRows.Backward(column-operand)", "a 3x1 operand receives a %dx%d gradient", b.got[0].r, b.got[0].c)
	}
	c := &node{Matrix: build[float64](r.kinkFree(3, 1)), req: true}
	h := g.NewSparseMax[mat.Tensor](c)
	p = catch(func() {
		if _, err = h.Forward(); err == nil {
			err = h.Backward(build[float64](r.kinkFree(4, 1)))
		}
	})
	if p != nil || err == nil {
		r.fail("C11", "SparseMax.Backward(shape)", "a 4x1 gradient for a 3x1 result: panic %v, error %v", p, err)
	}
}

// Dropout: each element is zero or x/(1-p), and the gradient uses the same mask.
func dropout(r *run) {
	for k := 0; k < r.rounds(100); k++ {
		r.n++
		p := []float64{0, 0.25, 0.5, 0.9, 1}[r.rnd.Intn(5)]
		x := r.kinkFree(r.dim1(), r.dim1())
		n := &node{Matrix: build[float64](x), req: r.rnd.Intn(3) > 0}
		f := g.NewDropout[mat.Tensor](n, p, srand.NewLockedRand(uint64(r.rnd.Intn(1000))))
		y, err := f.Forward()
		if err != nil {
			r.fail("C09", "Dropout.Forward", "error %v for %v", err, x)
			continue
		}
		ym := toMx(y)
		if !ym.same(x) {
			r.fail("C09", "Dropout.Forward", "result %v for %v", ym, x)
			continue
		}
		for i := range x.v {
			kept := p < 1 && near(ym.v[i], x.v[i]/(1-p), 1e-9)
			if ym.v[i] != 0 && !kept || p == 0 && !kept {
				r.fail("C09", "Dropout.Forward", "probability %v: result %v for %v", p, ym, x)
				break
			}
		}
		if err := f.Backward(build[float64](r.kinkFree(x.r+1, x.c))); err == nil || len(n.got) > 0 {
			r.fail("C11", "Dropout.Backward", "a %dx%d gradient for a %dx%d result: error %v", x.r+1, x.c, x.r, x.c, err)
		}
		n.got = nil
		gy := r.kinkFree(x.r, x.c)
		if err := f.Backward(build[float64](gy)); err != nil {
			r.fail("C10", "Dropout.Backward", "error %v", err)
			continue
		}
		if n.req != (len(n.got) == 1) {
			r.fail("C11", "Dropout.Backward", "requires %v, %d gradients", n.req, len(n.got))
			continue
		}
		if !n.req {
			continue
		}
		if !n.got[0].same(x) {
			r.fail("C11", "Dropout.Backward", "gradient %v for %v", n.got[0], x)
			continue
		}
		for i := range x.v {
			want := 0.0
			if x.v[i] != 0 {
				want = gy.v[i] * ym.v[i] / x.v[i]
			}
			if !near(n.got[0].v[i], want, 1e-8) {
				r.fail("C10", "Dropout.Backward", "gradient %v for output gradient %v, input %v, output %v", n.got[0], gy, x, ym)
				break
			}
		}
	}
}
