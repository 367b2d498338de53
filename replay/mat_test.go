package zzverif

import (
	"fmt"
	"math"
	"testing"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
)

// args of one call: operands, their models, integer and float parameters.
type args struct {
	m  []mat.Matrix
	a  []mx
	ip []int
	fp []float64
}

type matOp struct {
	name string
	grp  string // property of the values
	// gen draws operands and parameters (valid or invalid)
	gen  func(r *run) ([]mx, []int, []float64)
	bad  func(a []mx, ip []int, fp []float64) bool
	call func(x args) []mat.Matrix
	// want: expected results; for in-place operations want[0] is the
	// receiver's new value
	want    func(a []mx, ip []int, fp []float64) []mx
	inplace bool
	mixed   bool // operands may differ in element type
}

func one(m mat.Matrix) []mat.Matrix { return []mat.Matrix{m} }
func sc(x float64) []mx             { return []mx{col(x)} }

func anyShape(r *run) ([]mx, []int, []float64) {
	return []mx{r.mx(r.dim(), r.dim())}, nil, []float64{r.val()}
}

func posShape(r *run) ([]mx, []int, []float64) {
	return []mx{r.pos(r.dim(), r.dim())}, nil, []float64{r.val()}
}

func twoSame(r *run) ([]mx, []int, []float64) {
	a := r.mx(r.dim(), r.dim())
	b := r.mx(a.r, a.c)
	switch r.rnd.Intn(8) {
	case 0:
		b = r.mx(a.c, a.r)
	case 1:
		b = r.mx(a.r+r.rnd.Intn(3), a.c+r.rnd.Intn(2))
	case 2:
		b = r.mx(r.dim(), r.dim())
	}
	return []mx{a, b}, nil, []float64{r.val()}
}

func oneVec(r *run) ([]mx, []int, []float64) {
	v := r.vec()
	if r.rnd.Intn(10) == 0 {
		v = r.mx(r.dim(), r.dim())
	}
	return []mx{v}, nil, []float64{r.val()}
}

func notSame(a []mx, _ []int, _ []float64) bool { return !a[0].same(a[1]) }
func notVec(a []mx, _ []int, _ []float64) bool  { return !a[0].vec() }
func never(a []mx, _ []int, _ []float64) bool   { return false }

func el1(name, grp string, gen func(r *run) ([]mx, []int, []float64), call func(m mat.Matrix, f float64) mat.Matrix, f func(x, p float64) float64, inplace bool) matOp {
	return matOp{name: name, grp: grp, gen: gen, bad: never, inplace: inplace,
		call: func(x args) []mat.Matrix { return one(call(x.m[0], x.fp[0])) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{lift(a[0], func(v float64) float64 { return f(v, fp[0]) })}
		}}
}

func el2(name, grp string, call func(m, o mat.Matrix) mat.Matrix, f func(x, y float64) float64, inplace bool) matOp {
	return matOp{name: name, grp: grp, gen: twoSame, bad: notSame, inplace: inplace, mixed: true,
		call: func(x args) []mat.Matrix { return one(call(x.m[0], x.m[1])) },
		want: func(a []mx, ip []int, fp []float64) []mx { return []mx{lift2(a[0], a[1], f)} }}
}

func sumv(v []float64) float64 {
	s := 0.0
	for _, x := range v {
		s += x
	}
	return s
}

func softmaxOf(v []float64) []float64 {
	m := math.Inf(-1)
	for _, x := range v {
		m = math.Max(m, x)
	}
	out := make([]float64, len(v))
	s := 0.0
	for i, x := range v {
		out[i] = math.Exp(x - m)
		s += out[i]
	}
	for i := range out {
		out[i] /= s
	}
	return out
}

func fnRC(i, j int, v float64) float64 { return v*2 + float64(i) - 3*float64(j) }
func fnRCa(i, j int, v float64, al ...float64) float64 {
	return v*al[0] + float64(i)*al[1] - 3*float64(j)
}

func pnorm(v []float64, p float64) float64 {
	s := 0.0
	for _, x := range v {
		s += math.Pow(x, p)
	}
	return math.Pow(s, 1/p)
}

func badIdx(a mx, ip []int) bool {
	switch len(ip) {
	case 1:
		return !a.vec() || ip[0] < 0 || ip[0] >= len(a.v)
	case 2:
		return ip[0] < 0 || ip[0] >= a.r || ip[1] < 0 || ip[1] >= a.c
	}
	return true
}

func flat(a mx, ip []int) int {
	if len(ip) == 1 {
		return ip[0]
	}
	return ip[0]*a.c + ip[1]
}

func idxGen(r *run) ([]mx, []int, []float64) {
	a := r.mx(r.dim(), r.dim())
	if r.rnd.Intn(3) == 0 {
		a = r.vec()
	}
	ip := []int{r.rnd.Intn(a.r+2) - r.rnd.Intn(2), r.rnd.Intn(a.c+2) - r.rnd.Intn(2)}
	switch r.rnd.Intn(6) {
	case 0, 1:
		ip = []int{r.rnd.Intn(len(a.v)+2) - r.rnd.Intn(2)}
	case 2:
		if r.rnd.Intn(3) == 0 {
			ip = append(ip, 0)
		}
	}
	return []mx{a}, ip, []float64{r.val()}
}

func withF(m mat.Matrix, f float64) float.Float { return float.Interface(f) }

var matOps = []matOp{
	el2("Add", "C03", func(m, o mat.Matrix) mat.Matrix { return m.Add(o) }, func(x, y float64) float64 { return x + y }, false),
	el2("Sub", "C03", func(m, o mat.Matrix) mat.Matrix { return m.Sub(o) }, func(x, y float64) float64 { return x - y }, false),
	el2("Prod", "C03", func(m, o mat.Matrix) mat.Matrix { return m.Prod(o) }, func(x, y float64) float64 { return x * y }, false),
	el2("Div", "C03", func(m, o mat.Matrix) mat.Matrix { return m.Div(o) }, func(x, y float64) float64 { return x / y }, false),
	el2("Maximum", "C03", func(m, o mat.Matrix) mat.Matrix { return m.Maximum(o) }, math.Max, false),
	el2("Minimum", "C03", func(m, o mat.Matrix) mat.Matrix { return m.Minimum(o) }, math.Min, false),
	el2("AddInPlace", "C03", func(m, o mat.Matrix) mat.Matrix { return m.AddInPlace(o) }, func(x, y float64) float64 { return x + y }, true),
	el2("SubInPlace", "C03", func(m, o mat.Matrix) mat.Matrix { return m.SubInPlace(o) }, func(x, y float64) float64 { return x - y }, true),
	el2("ProdInPlace", "C03", func(m, o mat.Matrix) mat.Matrix { return m.ProdInPlace(o) }, func(x, y float64) float64 { return x * y }, true),
	el2("DivInPlace", "C03", func(m, o mat.Matrix) mat.Matrix { return m.DivInPlace(o) }, func(x, y float64) float64 { return x / y }, true),
	el2("Copy", "C05", func(m, o mat.Matrix) mat.Matrix { m.Copy(o); return m }, func(x, y float64) float64 { return y }, true),
	el2("ApplyInPlace", "C03", func(m, o mat.Matrix) mat.Matrix {
		return m.ApplyInPlace(func(i, j int, v float64) float64 { return v + 1 }, o)
	}, func(x, y float64) float64 { return y + 1 }, true),
	{name: "ApplyInPlace(r,c)", grp: "C03", gen: twoSame, bad: notSame, inplace: true,
		call: func(x args) []mat.Matrix { return one(x.m[0].ApplyInPlace(fnRC, x.m[1])) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(a[1].r, a[1].c, func(i, j int) float64 { return fnRC(i, j, a[1].at(i, j)) })}
		}},
	{name: "ApplyWithAlphaInPlace", grp: "C03", gen: twoSame, bad: notSame, inplace: true,
		call: func(x args) []mat.Matrix { return one(x.m[0].ApplyWithAlphaInPlace(fnRCa, x.m[1], x.fp[0], 2)) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(a[1].r, a[1].c, func(i, j int) float64 { return fnRCa(i, j, a[1].at(i, j), fp[0], 2) })}
		}},
	{name: "Apply", grp: "C03", gen: anyShape, bad: never,
		call: func(x args) []mat.Matrix { return one(x.m[0].Apply(fnRC)) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(a[0].r, a[0].c, func(i, j int) float64 { return fnRC(i, j, a[0].at(i, j)) })}
		}},
	{name: "ApplyWithAlpha", grp: "C03", gen: anyShape, bad: never,
		call: func(x args) []mat.Matrix { return one(x.m[0].ApplyWithAlpha(fnRCa, x.fp[0], 2)) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(a[0].r, a[0].c, func(i, j int) float64 { return fnRCa(i, j, a[0].at(i, j), fp[0], 2) })}
		}},
	{name: "ProdMatrixScalarInPlace", grp: "C03", gen: twoSame, bad: notSame, inplace: true, mixed: true,
		call: func(x args) []mat.Matrix { return one(x.m[0].ProdMatrixScalarInPlace(x.m[1], x.fp[0])) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{lift(a[1], func(v float64) float64 { return v * fp[0] })}
		}},
	el1("AddScalar", "C03", anyShape, func(m mat.Matrix, f float64) mat.Matrix { return m.AddScalar(f) }, func(x, p float64) float64 { return x + p }, false),
	el1("SubScalar", "C03", anyShape, func(m mat.Matrix, f float64) mat.Matrix { return m.SubScalar(f) }, func(x, p float64) float64 { return x - p }, false),
	el1("ProdScalar", "C03", anyShape, func(m mat.Matrix, f float64) mat.Matrix { return m.ProdScalar(f) }, func(x, p float64) float64 { return x * p }, false),
	el1("AddScalarInPlace", "C03", anyShape, func(m mat.Matrix, f float64) mat.Matrix { return m.AddScalarInPlace(f) }, func(x, p float64) float64 { return x + p }, true),
	el1("SubScalarInPlace", "C03", anyShape, func(m mat.Matrix, f float64) mat.Matrix { return m.SubScalarInPlace(f) }, func(x, p float64) float64 { return x - p }, true),
	el1("ProdScalarInPlace", "C03", anyShape, func(m mat.Matrix, f float64) mat.Matrix { return m.ProdScalarInPlace(f) }, func(x, p float64) float64 { return x * p }, true),
	el1("Abs", "C03", anyShape, func(m mat.Matrix, f float64) mat.Matrix { return m.Abs() }, func(x, p float64) float64 { return math.Abs(x) }, false),
	el1("Exp", "C03", anyShape, func(m mat.Matrix, f float64) mat.Matrix { return m.Exp() }, func(x, p float64) float64 { return math.Exp(x) }, false),
	el1("Sigmoid", "C03", anyShape, func(m mat.Matrix, f float64) mat.Matrix { return m.Sigmoid() }, func(x, p float64) float64 { return 1 / (1 + math.Exp(-x)) }, false),
	el1("Sqrt", "C03", posShape, func(m mat.Matrix, f float64) mat.Matrix { return m.Sqrt() }, func(x, p float64) float64 { return math.Sqrt(x) }, false),
	el1("Log", "C03", posShape, func(m mat.Matrix, f float64) mat.Matrix { return m.Log() }, func(x, p float64) float64 { return math.Log(x) }, false),
	el1("Pow", "C03", posShape, func(m mat.Matrix, f float64) mat.Matrix { return m.Pow(f) }, func(x, p float64) float64 { return math.Pow(x, p) }, false),
	el1("Zeros", "C03", anyShape, func(m mat.Matrix, f float64) mat.Matrix { m.Zeros(); return m }, func(x, p float64) float64 { return 0 }, true),
	el1("ZerosLike", "C01", anyShape, func(m mat.Matrix, f float64) mat.Matrix { return m.ZerosLike() }, func(x, p float64) float64 { return 0 }, false),
	el1("OnesLike", "C01", anyShape, func(m mat.Matrix, f float64) mat.Matrix { return m.OnesLike() }, func(x, p float64) float64 { return 1 }, false),
	el1("Clone", "C05", anyShape, func(m mat.Matrix, f float64) mat.Matrix { return m.Clone() }, func(x, p float64) float64 { return x }, false),
	{name: "ClipInPlace", grp: "C03", inplace: true,
		gen: func(r *run) ([]mx, []int, []float64) {
			lo := r.val()
			return []mx{r.mx(r.dim(), r.dim())}, nil, []float64{lo, lo + r.val() + 0.7}
		},
		bad:  func(a []mx, ip []int, fp []float64) bool { return fp[1] < fp[0] },
		call: func(x args) []mat.Matrix { return one(x.m[0].ClipInPlace(x.fp[0], x.fp[1])) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{lift(a[0], func(v float64) float64 { return math.Max(fp[0], math.Min(fp[1], v)) })}
		}},
	// products
	{name: "Mul", grp: "C04", mixed: true,
		gen: func(r *run) ([]mx, []int, []float64) {
			n, m, k := r.dim(), r.dim(), r.dim()
			if r.rnd.Intn(6) == 0 {
				n, k = 1+r.rnd.Intn(40), 1+r.rnd.Intn(40)
				m = 1 + r.rnd.Intn(40)
			}
			if r.rnd.Intn(3) == 0 {
				k = 1
			}
			b := r.mx(m, k)
			if r.rnd.Intn(8) == 0 {
				b = r.mx(r.dim(), k)
			}
			return []mx{r.mx(n, m), b}, nil, nil
		},
		bad:  func(a []mx, ip []int, fp []float64) bool { return a[0].c != a[1].r },
		call: func(x args) []mat.Matrix { return one(x.m[0].Mul(x.m[1])) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(a[0].r, a[1].c, func(i, j int) float64 {
				s := 0.0
				for k := 0; k < a[0].c; k++ {
					s += a[0].at(i, k) * a[1].at(k, j)
				}
				return s
			})}
		}},
	{name: "MulT", grp: "C04", mixed: true,
		gen: func(r *run) ([]mx, []int, []float64) {
			n, m := r.dim(), r.dim()
			b := r.mx(n, 1)
			if r.rnd.Intn(6) == 0 {
				b = r.mx(r.dim(), r.dim())
			}
			return []mx{r.mx(n, m), b}, nil, nil
		},
		bad:  func(a []mx, ip []int, fp []float64) bool { return a[0].r != a[1].r || a[1].c != 1 },
		call: func(x args) []mat.Matrix { return one(x.m[0].MulT(x.m[1])) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(a[0].c, 1, func(i, j int) float64 {
				s := 0.0
				for k := 0; k < a[0].r; k++ {
					s += a[0].at(k, i) * a[1].v[k]
				}
				return s
			})}
		}},
	{name: "DotUnitary", grp: "C04", mixed: true, gen: twoSame, bad: notSame,
		call: func(x args) []mat.Matrix { return one(x.m[0].DotUnitary(x.m[1])) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return sc(sumv(lift2(a[0], a[1], func(x, y float64) float64 { return x * y }).v))
		}},
	// reductions
	{name: "Sum", grp: "C06", gen: anyShape, bad: never,
		call: func(x args) []mat.Matrix { return one(x.m[0].Sum()) },
		want: func(a []mx, ip []int, fp []float64) []mx { return sc(sumv(a[0].v)) }},
	{name: "Max", grp: "C06", gen: anyShape, bad: func(a []mx, ip []int, fp []float64) bool { return len(a[0].v) == 0 },
		call: func(x args) []mat.Matrix { return one(x.m[0].Max()) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			m := math.Inf(-1)
			for _, x := range a[0].v {
				m = math.Max(m, x)
			}
			return sc(m)
		}},
	{name: "Min", grp: "C06", gen: anyShape, bad: func(a []mx, ip []int, fp []float64) bool { return len(a[0].v) == 0 },
		call: func(x args) []mat.Matrix { return one(x.m[0].Min()) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			m := math.Inf(1)
			for _, x := range a[0].v {
				m = math.Min(m, x)
			}
			return sc(m)
		}},
	{name: "ArgMax", grp: "C06", gen: oneVec, bad: func(a []mx, ip []int, fp []float64) bool { return !a[0].vec() || len(a[0].v) == 0 },
		call: func(x args) []mat.Matrix { return one(mat.Scalar(float64(x.m[0].ArgMax()))) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			b := 0
			for i, x := range a[0].v {
				if x > a[0].v[b] {
					b = i
				}
			}
			return sc(float64(b))
		}},
	{name: "Softmax", grp: "C06", gen: oneVec, bad: notVec,
		call: func(x args) []mat.Matrix { return one(x.m[0].Softmax()) },
		want: func(a []mx, ip []int, fp []float64) []mx { return []mx{col(softmaxOf(a[0].v)...)} }},
	{name: "CumSum", grp: "C06", gen: oneVec, bad: notVec,
		call: func(x args) []mat.Matrix { return one(x.m[0].CumSum()) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			out := make([]float64, len(a[0].v))
			s := 0.0
			for i, x := range a[0].v {
				s += x
				out[i] = s
			}
			return []mx{col(out...)}
		}},
	{name: "Norm", grp: "C06", gen: func(r *run) ([]mx, []int, []float64) {
		n := r.dim()
		a := r.pos(n, 1)
		if r.rnd.Intn(2) == 0 {
			a = tr(a)
		}
		if r.rnd.Intn(10) == 0 {
			a = r.pos(2, 3)
		}
		return []mx{a}, nil, []float64{float64(1 + r.rnd.Intn(4))}
	}, bad: notVec,
		call: func(x args) []mat.Matrix { return one(x.m[0].Norm(x.fp[0])) },
		want: func(a []mx, ip []int, fp []float64) []mx { return sc(pnorm(a[0].v, fp[0])) }},
	{name: "Normalize2", grp: "C06", gen: oneVec, bad: notVec,
		call: func(x args) []mat.Matrix { return one(x.m[0].Normalize2()) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			n := pnorm(a[0].v, 2)
			if n == 0 {
				n = 1
			}
			return []mx{lift(a[0], func(v float64) float64 { return v / n })}
		}},
	// structure
	{name: "ExtractRow", grp: "C05", gen: func(r *run) ([]mx, []int, []float64) {
		a := r.mx(r.dim(), r.dim())
		return []mx{a}, []int{r.rnd.Intn(a.r+3) - 1}, nil
	}, bad: func(a []mx, ip []int, fp []float64) bool { return ip[0] < 0 || ip[0] >= a[0].r },
		call: func(x args) []mat.Matrix { return one(x.m[0].ExtractRow(x.ip[0])) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(1, a[0].c, func(i, j int) float64 { return a[0].at(ip[0], j) })}
		}},
	{name: "ExtractColumn", grp: "C05", gen: func(r *run) ([]mx, []int, []float64) {
		a := r.mx(r.dim(), r.dim())
		return []mx{a}, []int{r.rnd.Intn(a.c+3) - 1}, nil
	}, bad: func(a []mx, ip []int, fp []float64) bool { return ip[0] < 0 || ip[0] >= a[0].c },
		call: func(x args) []mat.Matrix { return one(x.m[0].ExtractColumn(x.ip[0])) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(a[0].r, 1, func(i, j int) float64 { return a[0].at(i, ip[0]) })}
		}},
	{name: "Slice", grp: "C05", gen: func(r *run) ([]mx, []int, []float64) {
		a := r.mx(r.dim(), r.dim())
		fr, fc := r.rnd.Intn(a.r+1), r.rnd.Intn(a.c+1)
		tr, tc := fr+r.rnd.Intn(a.r-fr+1), fc+r.rnd.Intn(a.c-fc+1)
		if r.rnd.Intn(4) == 0 {
			fc, tc = 0, a.c
		}
		ip := []int{fr, fc, tr, tc}
		if r.rnd.Intn(6) == 0 {
			ip[r.rnd.Intn(4)] += r.rnd.Intn(5) - 2
		}
		return []mx{a}, ip, nil
	}, bad: func(a []mx, ip []int, fp []float64) bool {
		return ip[0] < 0 || ip[0] >= a[0].r || ip[1] < 0 || ip[1] >= a[0].c || ip[2] > a[0].r || ip[3] > a[0].c || ip[2] < ip[0] || ip[3] < ip[1]
	},
		call: func(x args) []mat.Matrix { return one(x.m[0].Slice(x.ip[0], x.ip[1], x.ip[2], x.ip[3])) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(ip[2]-ip[0], ip[3]-ip[1], func(i, j int) float64 { return a[0].at(ip[0]+i, ip[1]+j) })}
		}},
	{name: "Reshape", grp: "C05", gen: reshapeGen, bad: badReshape,
		call: func(x args) []mat.Matrix { return one(x.m[0].Reshape(x.ip...)) },
		want: func(a []mx, ip []int, fp []float64) []mx { return []mx{{r: ip[0], c: ip[1], v: a[0].v}} }},
	{name: "ReshapeInPlace", grp: "C05", gen: reshapeGen, bad: badReshape, inplace: true,
		call: func(x args) []mat.Matrix { return one(x.m[0].ReshapeInPlace(x.ip...)) },
		want: func(a []mx, ip []int, fp []float64) []mx { return []mx{{r: ip[0], c: ip[1], v: a[0].v}} }},
	{name: "Flatten", grp: "C05", gen: anyShape, bad: never,
		call: func(x args) []mat.Matrix { return one(x.m[0].Flatten()) },
		want: func(a []mx, ip []int, fp []float64) []mx { return []mx{{r: 1, c: len(a[0].v), v: a[0].v}} }},
	{name: "FlattenInPlace", grp: "C05", gen: anyShape, bad: never, inplace: true,
		call: func(x args) []mat.Matrix { return one(x.m[0].FlattenInPlace()) },
		want: func(a []mx, ip []int, fp []float64) []mx { return []mx{{r: 1, c: len(a[0].v), v: a[0].v}} }},
	{name: "ResizeVector", grp: "C05", gen: func(r *run) ([]mx, []int, []float64) {
		v, _, _ := oneVec(r)
		return v, []int{r.rnd.Intn(len(v[0].v)+5) - r.rnd.Intn(2)}, nil
	}, bad: func(a []mx, ip []int, fp []float64) bool { return !a[0].vec() || ip[0] < 0 },
		call: func(x args) []mat.Matrix { return one(x.m[0].ResizeVector(x.ip[0])) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(ip[0], 1, func(i, j int) float64 {
				if i < len(a[0].v) {
					return a[0].v[i]
				}
				return 0
			})}
		}},
	{name: "T", grp: "C05", gen: anyShape, bad: never,
		call: func(x args) []mat.Matrix { return one(x.m[0].T()) },
		want: func(a []mx, ip []int, fp []float64) []mx { return []mx{tr(a[0])} }},
	{name: "TransposeInPlace", grp: "C05", gen: anyShape, bad: never, inplace: true,
		call: func(x args) []mat.Matrix { return one(x.m[0].TransposeInPlace()) },
		want: func(a []mx, ip []int, fp []float64) []mx { return []mx{tr(a[0])} }},
	{name: "Range", grp: "C05", gen: func(r *run) ([]mx, []int, []float64) {
		v, _, _ := oneVec(r)
		n := len(v[0].v)
		s := r.rnd.Intn(n + 1)
		ip := []int{s, s + r.rnd.Intn(n-s+1)}
		if r.rnd.Intn(5) == 0 {
			ip[r.rnd.Intn(2)] += r.rnd.Intn(5) - 2
		}
		return v, ip, nil
	}, bad: func(a []mx, ip []int, fp []float64) bool {
		return !a[0].vec() || ip[0] < 0 || ip[1] < ip[0] || ip[1] > len(a[0].v)
	},
		call: func(x args) []mat.Matrix { return one(x.m[0].Range(x.ip[0], x.ip[1])) },
		want: func(a []mx, ip []int, fp []float64) []mx { return []mx{col(a[0].v[ip[0]:ip[1]]...)} }},
	{name: "SplitV", grp: "C05", gen: func(r *run) ([]mx, []int, []float64) {
		v, _, _ := oneVec(r)
		n := len(v[0].v)
		var ip []int
		for k := r.rnd.Intn(5); k > 0; k-- {
			s := r.rnd.Intn(n + 1)
			n -= s
			ip = append(ip, s)
		}
		if len(ip) > 0 && r.rnd.Intn(5) == 0 {
			ip[r.rnd.Intn(len(ip))] += r.rnd.Intn(5) - 2
		}
		return v, ip, nil
	}, bad: func(a []mx, ip []int, fp []float64) bool {
		if !a[0].vec() {
			return true
		}
		s := 0
		for _, x := range ip {
			s += x
			if x < 0 || s > len(a[0].v) {
				return true
			}
		}
		return false
	},
		call: func(x args) []mat.Matrix { return x.m[0].SplitV(x.ip...) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			var out []mx
			o := 0
			for _, n := range ip {
				out = append(out, col(a[0].v[o:o+n]...))
				o += n
			}
			return out
		}},
	{name: "Augment", grp: "C05", gen: func(r *run) ([]mx, []int, []float64) {
		n := r.dim()
		a := r.mx(n, n)
		if r.rnd.Intn(6) == 0 {
			a = r.mx(n, r.dim())
		}
		return []mx{a}, nil, nil
	}, bad: func(a []mx, ip []int, fp []float64) bool { return a[0].r != a[0].c },
		call: func(x args) []mat.Matrix { return one(x.m[0].Augment()) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			n := a[0].r
			return []mx{newMx(n, 2*n, func(i, j int) float64 {
				if j < n {
					return a[0].at(i, j)
				}
				if j-n == i {
					return 1
				}
				return 0
			})}
		}},
	{name: "SwapInPlace", grp: "C05", inplace: true, gen: func(r *run) ([]mx, []int, []float64) {
		a := r.mx(r.dim(), r.dim())
		return []mx{a}, []int{r.rnd.Intn(a.r+2) - r.rnd.Intn(2), r.rnd.Intn(a.r+2) - r.rnd.Intn(2)}, nil
	}, bad: func(a []mx, ip []int, fp []float64) bool {
		return ip[0] < 0 || ip[0] >= a[0].r || ip[1] < 0 || ip[1] >= a[0].r
	},
		call: func(x args) []mat.Matrix { return one(x.m[0].SwapInPlace(x.ip[0], x.ip[1])) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(a[0].r, a[0].c, func(i, j int) float64 {
				if i == ip[0] {
					i = ip[1]
				} else if i == ip[1] {
					i = ip[0]
				}
				return a[0].at(i, j)
			})}
		}},
	{name: "PadRows", grp: "C05", gen: padGen, bad: func(a []mx, ip []int, fp []float64) bool { return ip[0] < 0 },
		call: func(x args) []mat.Matrix { return one(x.m[0].PadRows(x.ip[0])) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(a[0].r+ip[0], a[0].c, func(i, j int) float64 {
				if i < a[0].r {
					return a[0].at(i, j)
				}
				return 0
			})}
		}},
	{name: "PadColumns", grp: "C05", gen: padGen, bad: func(a []mx, ip []int, fp []float64) bool { return ip[0] < 0 },
		call: func(x args) []mat.Matrix { return one(x.m[0].PadColumns(x.ip[0])) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(a[0].r, a[0].c+ip[0], func(i, j int) float64 {
				if j < a[0].c {
					return a[0].at(i, j)
				}
				return 0
			})}
		}},
	{name: "AppendRows", grp: "C05", mixed: true, gen: func(r *run) ([]mx, []int, []float64) {
		a := r.mx(r.dim(), r.dim())
		out := []mx{a}
		for k := r.rnd.Intn(4); k > 0; k-- {
			v := r.mx(1, a.c)
			if r.rnd.Intn(2) == 0 {
				v = tr(v)
			}
			if r.rnd.Intn(8) == 0 {
				v = r.mx(r.dim(), r.dim())
			}
			out = append(out, v)
		}
		return out, nil, nil
	}, bad: func(a []mx, ip []int, fp []float64) bool {
		for _, v := range a[1:] {
			if !v.vec() || len(v.v) != a[0].c {
				return true
			}
		}
		return false
	},
		call: func(x args) []mat.Matrix { return one(x.m[0].AppendRows(x.m[1:]...)) },
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(a[0].r+len(a)-1, a[0].c, func(i, j int) float64 {
				if i < a[0].r {
					return a[0].at(i, j)
				}
				return a[1+i-a[0].r].v[j]
			})}
		}},
	{name: "ConcatV", grp: "C05", gen: vecsGen(false), bad: func(a []mx, ip []int, fp []float64) bool {
		for _, v := range a {
			if !v.vec() {
				return true
			}
		}
		return false
	},
		call: func(x args) []mat.Matrix {
			if is32(x.m[0]) {
				return one(mat.ConcatV[float32](x.m...))
			}
			return one(mat.ConcatV[float64](x.m...))
		},
		want: func(a []mx, ip []int, fp []float64) []mx {
			var v []float64
			for _, x := range a {
				v = append(v, x.v...)
			}
			return []mx{col(v...)}
		}},
	{name: "Stack", grp: "C05", gen: vecsGen(true), bad: func(a []mx, ip []int, fp []float64) bool {
		for _, v := range a {
			if !v.vec() || len(v.v) != len(a[0].v) {
				return true
			}
		}
		return false
	},
		call: func(x args) []mat.Matrix {
			if is32(x.m[0]) {
				return one(mat.Stack[float32](x.m...))
			}
			return one(mat.Stack[float64](x.m...))
		},
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(len(a), len(a[0].v), func(i, j int) float64 { return a[i].v[j] })}
		}},
	// element access
	{name: "At", grp: "C01", gen: idxGen, bad: func(a []mx, ip []int, fp []float64) bool { return badIdx(a[0], ip) },
		call: func(x args) []mat.Matrix { return one(x.m[0].At(x.ip...).(mat.Matrix)) },
		want: func(a []mx, ip []int, fp []float64) []mx { return sc(a[0].v[flat(a[0], ip)]) }},
	{name: "ScalarAt", grp: "C01", gen: idxGen, bad: func(a []mx, ip []int, fp []float64) bool { return badIdx(a[0], ip) },
		call: func(x args) []mat.Matrix { return one(mat.Scalar(x.m[0].ScalarAt(x.ip...).F64())) },
		want: func(a []mx, ip []int, fp []float64) []mx { return sc(a[0].v[flat(a[0], ip)]) }},
	{name: "SetScalar", grp: "C01", inplace: true, gen: idxGen, bad: func(a []mx, ip []int, fp []float64) bool { return badIdx(a[0], ip) },
		call: func(x args) []mat.Matrix { x.m[0].SetScalar(withF(x.m[0], x.fp[0]), x.ip...); return one(x.m[0]) },
		want: setAt},
	{name: "SetAt", grp: "C01", inplace: true, gen: idxGen, bad: func(a []mx, ip []int, fp []float64) bool { return badIdx(a[0], ip) },
		call: func(x args) []mat.Matrix { x.m[0].SetAt(mat.Scalar(x.fp[0]), x.ip...); return one(x.m[0]) },
		want: setAt},
	{name: "SetData", grp: "C01", inplace: true, gen: func(r *run) ([]mx, []int, []float64) {
		a := r.mx(r.dim(), r.dim())
		n := len(a.v)
		if r.rnd.Intn(4) == 0 {
			n = r.rnd.Intn(n + 3)
		}
		return []mx{a}, nil, r.mx(n, 1).v
	}, bad: func(a []mx, ip []int, fp []float64) bool { return len(fp) != len(a[0].v) },
		call: func(x args) []mat.Matrix {
			x.m[0].SetData(float.Make(append([]float64(nil), x.fp...)...))
			return one(x.m[0])
		},
		want: func(a []mx, ip []int, fp []float64) []mx { return []mx{{r: a[0].r, c: a[0].c, v: fp}} }},
	{name: "Item", grp: "C01", gen: func(r *run) ([]mx, []int, []float64) {
		if r.rnd.Intn(2) == 0 {
			return []mx{r.mx(1, 1)}, nil, nil
		}
		return []mx{r.mx(r.dim(), r.dim())}, nil, nil
	}, bad: func(a []mx, ip []int, fp []float64) bool { return len(a[0].v) != 1 },
		call: func(x args) []mat.Matrix { return one(mat.Scalar(x.m[0].Item().F64())) },
		want: func(a []mx, ip []int, fp []float64) []mx { return sc(a[0].v[0]) }},
	{name: "DoNonZero", grp: "C03", gen: anyShape, bad: never,
		call: func(x args) []mat.Matrix {
			out := x.m[0].ZerosLike()
			n := 0
			x.m[0].DoNonZero(func(r, c int, v float64) { out.SetScalar(float.Interface(v), r, c); n++ })
			return []mat.Matrix{out, mat.Scalar(float64(n))}
		},
		want: func(a []mx, ip []int, fp []float64) []mx {
			n := 0.0
			for _, x := range a[0].v {
				if x != 0 {
					n++
				}
			}
			return []mx{a[0], col(n)}
		}},
	{name: "DoVecNonZero", grp: "C03", gen: oneVec, bad: notVec,
		call: func(x args) []mat.Matrix {
			out := x.m[0].ZerosLike()
			n := 0
			x.m[0].DoVecNonZero(func(i int, v float64) { out.SetScalar(float.Interface(v), i); n++ })
			return []mat.Matrix{out, mat.Scalar(float64(n))}
		},
		want: func(a []mx, ip []int, fp []float64) []mx {
			n := 0.0
			for _, x := range a[0].v {
				if x != 0 {
					n++
				}
			}
			return []mx{a[0], col(n)}
		}},
	{name: "CreateInitializedSlice", grp: "C03", gen: func(r *run) ([]mx, []int, []float64) {
		return []mx{r.mx(1, 1)}, []int{r.dim() - r.rnd.Intn(2)}, []float64{r.val()}
	}, bad: func(a []mx, ip []int, fp []float64) bool { return ip[0] < 0 },
		call: func(x args) []mat.Matrix {
			return one(mat.NewDense[float64](mat.WithBacking(mat.CreateInitializedSlice(x.ip[0], x.fp[0]))))
		},
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(ip[0], 1, func(i, j int) float64 { return fp[0] })}
		}},
	{name: "CreateOneHotVector", grp: "C03", gen: func(r *run) ([]mx, []int, []float64) {
		n := r.dim()
		return []mx{r.mx(1, 1)}, []int{n, r.rnd.Intn(n+2) - r.rnd.Intn(2)}, nil
	}, bad: func(a []mx, ip []int, fp []float64) bool { return ip[1] < 0 || ip[1] >= ip[0] },
		call: func(x args) []mat.Matrix {
			return one(mat.NewDense[float64](mat.WithBacking(mat.CreateOneHotVector[float64](x.ip[0], x.ip[1]))))
		},
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(ip[0], 1, func(i, j int) float64 {
				if i == ip[1] {
					return 1
				}
				return 0
			})}
		}},
	{name: "CreateIdentityMatrix", grp: "C03", gen: func(r *run) ([]mx, []int, []float64) {
		return []mx{r.mx(1, 1)}, []int{r.dim()}, nil
	}, bad: never,
		call: func(x args) []mat.Matrix {
			return one(mat.NewDense[float64](mat.WithShape(x.ip[0], x.ip[0]), mat.WithBacking(mat.CreateIdentityMatrix[float64](x.ip[0]))))
		},
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(ip[0], ip[0], func(i, j int) float64 {
				if i == j {
					return 1
				}
				return 0
			})}
		}},
	{name: "InitializeMatrix", grp: "C03", gen: func(r *run) ([]mx, []int, []float64) {
		return []mx{r.mx(1, 1)}, []int{r.dim(), r.dim()}, nil
	}, bad: never,
		call: func(x args) []mat.Matrix {
			return one(mat.NewDense[float64](mat.WithShape(x.ip[0], x.ip[1]), mat.WithBacking(mat.InitializeMatrix(x.ip[0], x.ip[1], func(r, c int) float64 { return float64(7*r - c) }))))
		},
		want: func(a []mx, ip []int, fp []float64) []mx {
			return []mx{newMx(ip[0], ip[1], func(i, j int) float64 { return float64(7*i - j) })}
		}},
}

func setAt(a []mx, ip []int, fp []float64) []mx {
	v := append([]float64(nil), a[0].v...)
	v[flat(a[0], ip)] = fp[0]
	return []mx{{r: a[0].r, c: a[0].c, v: v}}
}

func reshapeGen(r *run) ([]mx, []int, []float64) {
	a := r.mx(r.dim(), r.dim())
	ip := []int{a.c, a.r}
	switch r.rnd.Intn(6) {
	case 0:
		ip = []int{1, len(a.v)}
	case 1:
		ip = []int{len(a.v), 1}
	case 2:
		ip = []int{-a.r, -a.c}
	case 3:
		ip = []int{r.dim(), r.dim()}
	case 4:
		if r.rnd.Intn(4) == 0 {
			ip = []int{len(a.v)}
		}
	}
	return []mx{a}, ip, nil
}

func badReshape(a []mx, ip []int, fp []float64) bool {
	return len(ip) != 2 || ip[0] < 0 || ip[1] < 0 || ip[0]*ip[1] != len(a[0].v)
}

func padGen(r *run) ([]mx, []int, []float64) {
	return []mx{r.mx(r.dim(), r.dim())}, []int{r.rnd.Intn(5) - r.rnd.Intn(2)}, nil
}

func vecsGen(same bool) func(r *run) ([]mx, []int, []float64) {
	return func(r *run) ([]mx, []int, []float64) {
		n := r.dim()
		var out []mx
		for k := 1 + r.rnd.Intn(4); k > 0; k-- {
			if !same {
				n = r.dim()
			}
			v := r.mx(n, 1)
			if r.rnd.Intn(2) == 0 {
				v = tr(v)
			}
			if r.rnd.Intn(14) == 0 {
				v = r.mx(r.dim(), r.dim())
			}
			out = append(out, v)
		}
		return out, nil, nil
	}
}

// consistent checks C01 for one matrix.
func consistent(m mat.Matrix) string {
	s := m.Shape()
	if len(s) != 2 || m.Dims() != 2 {
		return fmt.Sprintf("shape %v, Dims %d", s, m.Dims())
	}
	if m.Size() != s[0]*s[1] || m.Data().Len() != s[0]*s[1] {
		return fmt.Sprintf("shape %v but Size()=%d, len(Data())=%d", s, m.Size(), m.Data().Len())
	}
	d := m.Data().F64()
	for i := 0; i < s[0]; i++ {
		for j := 0; j < s[1]; j++ {
			x := m.ScalarAt(i, j).F64()
			if x != d[i*s[1]+j] && !math.IsNaN(x) {
				return fmt.Sprintf("ScalarAt(%d,%d)=%v but Data()[%d]=%v", i, j, x, i*s[1]+j, d[i*s[1]+j])
			}
		}
	}
	return ""
}

// scribble overwrites the elements and shape of a matrix.
func scribble(m mat.Matrix) {
	m.AddScalarInPlace(17)
	m.FlattenInPlace()
	if m.Size() > 0 {
		m.SetScalar(float.Interface(99.0), 0, 0)
	}
}

func buildAs(f32 bool, a mx) mat.Matrix {
	if f32 {
		return build[float32](a)
	}
	return build[float64](a)
}

func runMatOps(r *run, only func(o matOp) bool, rounds int) {
	for _, o := range matOps {
		if only != nil && !only(o) {
			continue
		}
		for k := 0; k < rounds; k++ {
			ms, ip, fp := o.gen(r)
			f32 := r.rnd.Intn(2) == 0
			x := args{a: ms, ip: ip, fp: fp}
			for i, a := range ms {
				e := f32
				if o.mixed && i > 0 && r.rnd.Intn(3) == 0 {
					e = !e
				}
				x.m = append(x.m, buildAs(e, a))
			}
			// the same matrix as both operands
			if len(ms) == 2 && ms[0].same(ms[1]) && r.rnd.Intn(6) == 0 && o.name != "Copy" {
				x.m[1], x.a[1] = x.m[0], x.a[0]
			}
			r.n++
			desc := fmt.Sprintf("mat.Dense.%s float32=%v operands %v ints %v floats %v", o.name, f32, ms, ip, fp)
			var out []mat.Matrix
			p := catch(func() { out = o.call(x) })
			if o.bad(x.a, ip, fp) {
				if p == nil {
					r.fail(o.grp, o.name, "%s: invalid arguments accepted", desc)
					r.fail("C07", o.name, "%s: invalid arguments accepted", desc)
				}
				continue
			}
			if p != nil {
				r.fail("C07", o.name, "%s: panic %v", desc, p)
				r.fail(o.grp, o.name, "%s: panic %v", desc, p)
				continue
			}
			w := o.want(x.a, ip, fp)
			if len(out) != len(w) {
				r.fail(o.grp, o.name, "%s: %d results, want %d", desc, len(out), len(w))
				continue
			}
			for i := range out {
				if s := consistent(out[i]); s != "" {
					r.fail("C01", o.name, "%s: %s", desc, s)
					continue
				}
				g := toMx(out[i])
				if !g.same(w[i]) {
					r.fail("C01", o.name, "%s: result is %dx%d, want %dx%d", desc, g.r, g.c, w[i].r, w[i].c)
					r.fail(o.grp, o.name, "%s: result is %dx%d, want %dx%d", desc, g.r, g.c, w[i].r, w[i].c)
				} else if !eqMx(g, w[i], tolOf(f32)) {
					r.fail(o.grp, o.name, "%s: got %v want %v", desc, g, w[i])
				}
			}
			for i, m := range x.m {
				if o.inplace && (i == 0 || m == x.m[0]) {
					continue
				}
				if !identical(toMx(m), x.a[i]) {
					r.fail("C02", o.name, "%s: operand %d changed to %v", desc, i, toMx(m))
				}
			}
			if o.inplace {
				if len(out) == 1 && out[0] != x.m[0] {
					r.fail("C02", o.name, "%s: the result is not the receiver", desc)
				}
				// receiver and operand stay independent
				for i, m := range x.m[1:] {
					if m == x.m[0] {
						continue
					}
					scribble(x.m[0])
					if !identical(toMx(m), x.a[i+1]) {
						r.fail("C02", o.name, "%s: writing the receiver afterwards changes operand %d", desc, i+1)
					}
				}
				continue
			}
			// the result is independent of the operands
			for i := range out {
				before := make([]mx, len(out))
				for j := range out {
					before[j] = toMx(out[j])
				}
				scribble(out[i])
				for j, m := range x.m {
					if !identical(toMx(m), x.a[j]) {
						r.fail("C02", o.name, "%s: writing result %d changes operand %d", desc, i, j)
					}
				}
				for j := range out {
					if j != i && !identical(toMx(out[j]), before[j]) {
						r.fail("C02", o.name, "%s: writing result %d changes result %d", desc, i, j)
					}
				}
			}
			var after []mx
			for i := range out {
				after = append(after, toMx(out[i]))
			}
			for j := range x.m {
				scribble(x.m[j])
			}
			for i := range out {
				if !identical(toMx(out[i]), after[i]) {
					r.fail("C02", o.name, "%s: writing the operands changes result %d", desc, i)
				}
			}
		}
	}
}

func matReplay(t *testing.T, prop string) {
	r := newRun(t, prop, prop)
	n := 2500
	runMatOps(r, nil, r.rounds(n))
	r.done("random calls of every mat.Dense operation")
}

func TestReplayC01(t *testing.T) { matReplay(t, "C01") }
func TestReplayC02(t *testing.T) { matReplay(t, "C02") }
func TestReplayC03(t *testing.T) { matReplay(t, "C03") }
func TestReplayC04(t *testing.T) { matReplay(t, "C04") }
func TestReplayC05(t *testing.T) { matReplay(t, "C05") }
func TestReplayC06(t *testing.T) { matReplay(t, "C06") }
func TestReplayC07(t *testing.T) { matReplay(t, "C07") }

func boundedOps(t *testing.T, prop string, names ...string) {
	r := newRun(t, prop, prop)
	set := map[string]bool{}
	for _, n := range names {
		set[n] = true
	}
	runMatOps(r, func(o matOp) bool { return set[o.name] }, r.rounds(600))
	r.done(fmt.Sprintf("random calls of %v, dimensions 0..40, both element types", names))
}

// functions whose contracts are marked bounded
var boundedNames = []string{"TransposeInPlace", "Slice", "Augment", "PadColumns", "AppendRows", "Softmax", "ConcatV", "Stack", "CumSum", "Mul", "MulT"}

func TestBoundedC01(t *testing.T) { boundedOps(t, "C01", boundedNames...) }
func TestBoundedC02(t *testing.T) { boundedOps(t, "C02", boundedNames...) }
func TestBoundedC05(t *testing.T) { boundedOps(t, "C05", boundedNames...) }
func TestBoundedC07(t *testing.T) { boundedOps(t, "C07", boundedNames...) }

// Kernels: the assembly selected on this machine against plain loops, over
// lengths that reach every unrolled and tail path, at shifted addresses.
func kernels(t *testing.T, prop string, names ...string) {
	r := newRun(t, prop, prop)
	for _, o := range matOps {
		use := false
		for _, n := range names {
			use = use || n == o.name
		}
		if !use {
			continue
		}
		for n := 0; n <= 140; n++ {
			for k := 0; k < r.rounds(6); k++ {
				f32 := k%2 == 0
				amp := 1.0
				if k%3 == 0 {
					amp = 8
				}
				rows, cols := n, 1
				if r.rnd.Intn(2) == 0 {
					rows, cols = 1, n
				}
				a := lift(r.mx(rows, cols), func(x float64) float64 { return x * amp })
				b := lift(r.mx(rows, cols), func(x float64) float64 { return x*amp + 0.25 })
				if o.name == "Log" {
					a = lift(a, func(x float64) float64 { return math.Abs(x) + 0.125 })
				}
				ops := []mx{a, b}
				switch o.name {
				case "Mul":
					m, q := r.rnd.Intn(70), r.rnd.Intn(12)
					if r.rnd.Intn(3) == 0 {
						q = 1
					}
					ops = []mx{r.mx(n%50, m), r.mx(m, q)}
				case "MulT":
					ops = []mx{r.mx(n, r.rnd.Intn(20)), r.mx(n, 1)}
				}
				fp := []float64{r.val()}
				x := args{fp: fp}
				for _, m := range ops {
					x.m = append(x.m, buildShifted(f32, m, r.rnd.Intn(4)))
				}
				r.n++
				var out []mat.Matrix
				desc := fmt.Sprintf("mat.Dense.%s float32=%v operands %v floats %v", o.name, f32, ops, fp)
				if p := catch(func() { out = o.call(x) }); p != nil {
					r.fail(prop, o.name, "%s: panic %v", desc, p)
					continue
				}
				w := o.want(ops, nil, fp)[0]
				if g := toMx(out[0]); !eqMx(g, w, tolOf(f32)) {
					r.fail(prop, o.name, "%s: got %v want %v", desc, g, w)
				}
			}
		}
	}
	r.done(fmt.Sprintf("%v on lengths 0..140 at shifted addresses, both element types", names))
}

func buildShifted(f32 bool, a mx, off int) mat.Matrix {
	if f32 {
		d := make([]float32, off+len(a.v)+3)
		for i, x := range a.v {
			d[off+i] = float32(x)
		}
		return mat.NewDense[float32](mat.WithShape(a.r, a.c), mat.WithBacking(d[off:off+len(a.v)]))
	}
	d := make([]float64, off+len(a.v)+3)
	for i, x := range a.v {
		d[off+i] = x
	}
	return mat.NewDense[float64](mat.WithShape(a.r, a.c), mat.WithBacking(d[off:off+len(a.v)]))
}

func TestBoundedC03(t *testing.T) {
	kernels(t, "C03", "Add", "Sub", "Prod", "Div", "AddInPlace", "SubInPlace", "DivInPlace", "AddScalar", "SubScalar", "ProdScalar", "AddScalarInPlace", "ProdScalarInPlace", "ProdMatrixScalarInPlace", "Exp", "Log")
}
func TestBoundedC04(t *testing.T) { kernels(t, "C04", "Mul", "MulT", "DotUnitary") }
func TestBoundedC06(t *testing.T) { kernels(t, "C06", "Sum", "Softmax", "CumSum") }
