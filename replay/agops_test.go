package zzverif

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// the operators of package ag that wrap one differentiable function
var agOps = map[string]func(x []mat.Tensor, in gradIn) mat.Tensor{
	"Add":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Add(x[0], x[1]) },
	"Sub":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Sub(x[0], x[1]) },
	"Prod":             func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Prod(x[0], x[1]) },
	"Div":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Div(x[0], x[1]) },
	"Max":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Max(x[0], x[1]) },
	"Min":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Min(x[0], x[1]) },
	"AddScalar":        func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.AddScalar(x[0], x[1]) },
	"SubScalar":        func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.SubScalar(x[0], x[1]) },
	"ReverseSubScalar": func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.ReverseSub(x[0], x[1]) },
	"ProdScalar":       func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.ProdScalar(x[0], x[1]) },
	"DivScalar":        func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.DivScalar(x[0], x[1]) },
	"Dot":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Dot(x[0], x[1]) },
	"Mul":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Mul(x[0], x[1]) },
	"MulT":             func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.MulT(x[0], x[1]) },
	"Exp":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Exp(x[0]) },
	"Log":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Log(x[0]) },
	"Sqrt":             func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Sqrt(x[0]) },
	"Square":           func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Square(x[0]) },
	"Copy":             func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Copy(x[0]) },
	"Pow":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Pow(x[0], in.fp[0]) },
	"Tan":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Tan(x[0]) },
	"Cos":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Cos(x[0]) },
	"Sin":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Sin(x[0]) },
	"Neg":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Neg(x[0]) },
	"Reciprocal":       func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Reciprocal(x[0]) },
	"Abs":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Abs(x[0]) },
	"Tanh":             func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Tanh(x[0]) },
	"Sigmoid":          func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Sigmoid(x[0]) },
	"HardSigmoid":      func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.HardSigmoid(x[0]) },
	"HardTanh":         func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.HardTanh(x[0]) },
	"ReLU":             func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.ReLU(x[0]) },
	"Softsign":         func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Softsign(x[0]) },
	"Mish":             func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Mish(x[0]) },
	"SiLU":             func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.SiLU(x[0]) },
	"Swish":            func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Swish(x[0]) },
	"GELU":             func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.GELU(x[0]) },
	"SwishB":           func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.SwishB(x[0], x[1]) },
	"CELU":             func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.CELU(x[0], x[1]) },
	"ELU":              func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.ELU(x[0], x[1]) },
	"LeakyReLU":        func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.LeakyReLU(x[0], x[1]) },
	"SoftShrink":       func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.SoftShrink(x[0], x[1]) },
	"SELU":             func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.SELU(x[0], x[1], x[2]) },
	"SoftPlus":         func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.SoftPlus(x[0], x[1], x[2]) },
	"Threshold":        func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Threshold(x[0], x[1], x[2]) },
	"At":               func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.At(x[0], in.ip...) },
	"ColView":          func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.ColView(x[0], in.ip[0]) },
	"RowView":          func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.RowView(x[0], in.ip[0]) },
	"Flatten":          func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Flatten(x[0]) },
	"Reshape":          func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Reshape(x[0], in.ip[0], in.ip[1]) },
	"Transpose":        func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.T(x[0]) },
	"Slice": func(x []mat.Tensor, in gradIn) mat.Tensor {
		return ag.Slice(x[0], in.ip[0], in.ip[1], in.ip[2], in.ip[3])
	},
	"RotateR":    func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.RotateR(x[0], in.ip[0]) },
	"ReduceSum":  func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.ReduceSum(x[0]) },
	"ReduceMean": func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.ReduceMean(x[0]) },
	"ReduceMax":  func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.ReduceMax(x[0]) },
	"Softmax":    func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Softmax(x[0]) },
	"ScalarMax":  func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.ScalarMax(x) },
	"Stack":      func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Stack(x...) },
	"AppendRows": func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.AppendRows(x[0], x[1:]...) },
	"Concat":     func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Concat(x...) },
	"Affine":     func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.Affine(x[0], x[1], x[2], x[3:]...) },
	"MaxPooling": func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.MaxPooling(x[0], in.ip[0], in.ip[1]) },
	"SparseMax":  func(x []mat.Tensor, in gradIn) mat.Tensor { return ag.SparseMax(x[0]) },
	"SparseMaxLoss": func(x []mat.Tensor, in gradIn) mat.Tensor {
		return ag.SparseMaxLoss(x[0])
	},
}

// agGens: every operator of package ag.
func agGens(act bool) []graphGen {
	var gens []graphGen
	for _, o := range gradOps {
		o := o
		f, ok := agOps[o.name]
		if !ok || act && !o.act {
			continue
		}
		gens = append(gens, graphGen{name: "ag." + o.name, gen: func(r *run) graphCase {
			in := o.gen(r)
			for o.bad(in) {
				in = o.gen(r)
			}
			return graphCase{
				desc: fmt.Sprintf("integers %v reals %v", in.ip, in.fp),
				in:   in.x,
				tol:  math.Max(1, o.tol/2e-5),
				run:  func(x []mat.Tensor) []mat.Tensor { return []mat.Tensor{f(x, in)} },
				want: func(x []mx) []mx { return []mx{o.want(gradIn{x: x, ip: in.ip, fp: in.fp})} },
				no:   func(k int) bool { return o.noGrad[k] },
			}
		}})
	}
	if act {
		return gens
	}
	add := func(name string, gen func(r *run) graphCase) {
		gens = append(gens, graphGen{name: "ag." + name, gen: gen})
	}
	list := func(r *run) []mx {
		a := r.kinkFree(r.dim1(), r.dim1())
		xs := []mx{a}
		for n := r.rnd.Intn(5); n > 0; n-- {
			xs = append(xs, r.kinkFree(a.r, a.c))
		}
		return xs
	}
	one := func(y mat.Tensor) []mat.Tensor { return []mat.Tensor{y} }
	fold := func(f func(x, y float64) float64) func(in []mx) []mx {
		return func(in []mx) []mx {
			y := in[0]
			for _, x := range in[1:] {
				y = lift2(y, x, f)
			}
			return []mx{y}
		}
	}
	sum := fold(func(x, y float64) float64 { return x + y })
	add("Sum", func(r *run) graphCase {
		return graphCase{in: list(r), want: sum, run: func(x []mat.Tensor) []mat.Tensor {
			if len(x) == 1 {
				return one(ag.Copy(ag.Sum(x...)))
			}
			return one(ag.Sum(x...))
		}}
	})
	add("Mean", func(r *run) graphCase {
		return graphCase{in: list(r), run: func(x []mat.Tensor) []mat.Tensor { return one(ag.Mean(x)) },
			want: func(in []mx) []mx {
				return []mx{lift(sum(in)[0], func(v float64) float64 { return v / float64(len(in)) })}
			}}
	})
	add("Maximum", func(r *run) graphCase {
		return graphCase{in: list(r), run: func(x []mat.Tensor) []mat.Tensor { return one(ag.Copy(ag.Maximum(x))) }, want: fold(math.Max)}
	})
	add("Minimum", func(r *run) graphCase {
		return graphCase{in: list(r), run: func(x []mat.Tensor) []mat.Tensor { return one(ag.Copy(ag.Minimum(x))) }, want: fold(math.Min)}
	})
	add("ReverseSubOne", func(r *run) graphCase {
		return graphCase{in: []mx{r.kinkFree(r.dim1(), r.dim1())},
			run:  func(x []mat.Tensor) []mat.Tensor { return one(ag.ReverseSubOne(x[0])) },
			want: func(in []mx) []mx { return []mx{lift(in[0], func(v float64) float64 { return 1 - v })} }}
	})
	small := func(r *run, rows, cols int) mx {
		return lift(r.kinkFree(rows, cols), func(v float64) float64 { return v / 4 })
	}
	add("BiLinear", func(r *run) graphCase {
		n, m := 1+r.rnd.Intn(5), 1+r.rnd.Intn(5)
		return graphCase{in: []mx{small(r, n, m), small(r, n, 1), small(r, m, 1)},
			run:  func(x []mat.Tensor) []mat.Tensor { return one(ag.BiLinear(x[0], x[1], x[2])) },
			want: func(in []mx) []mx { return []mx{mulMx(mulMx(tr(in[1]), in[0]), in[2])} }}
	})
	add("BiAffine", func(r *run) graphCase {
		n, m := 1+r.rnd.Intn(5), 1+r.rnd.Intn(5)
		return graphCase{in: []mx{small(r, n, m), small(r, n, 1), small(r, m, 1), small(r, 1, 1), small(r, n, 1), small(r, m, 1)},
			run: func(x []mat.Tensor) []mat.Tensor {
				return one(ag.BiAffine(x[0], x[1], x[2], x[3], x[4], x[5]))
			},
			want: func(in []mx) []mx {
				w, u, v, b, x1, x2 := in[0], in[1], in[2], in[3], in[4], in[5]
				return []mx{addMx(addMx(addMx(mulMx(mulMx(tr(x1), w), x2), mulMx(tr(u), x1)), mulMx(tr(v), x2)), b)}
			}}
	})
	add("PositiveELU", func(r *run) graphCase {
		return graphCase{in: []mx{r.kinkFree(r.dim1(), r.dim1())},
			run: func(x []mat.Tensor) []mat.Tensor { return one(ag.PositiveELU(x[0])) },
			want: func(in []mx) []mx {
				return []mx{lift(in[0], func(v float64) float64 {
					if v > 0 {
						return v + 1
					}
					return math.Exp(v)
				})}
			}}
	})
	lse := func(v []float64) float64 {
		m, s := math.Inf(-1), 0.0
		for _, x := range v {
			m = math.Max(m, x)
		}
		for _, x := range v {
			s += math.Exp(x - m)
		}
		return m + math.Log(s)
	}
	add("LogSoftmax", func(r *run) graphCase {
		x := r.vecKF()
		for len(x.v) == 0 {
			x = r.vecKF()
		}
		return graphCase{in: []mx{x}, tol: 4,
			run: func(x []mat.Tensor) []mat.Tensor { return one(ag.LogSoftmax(x[0])) },
			want: func(in []mx) []mx {
				l := lse(in[0].v)
				return []mx{lift(col(in[0].v...), func(v float64) float64 { return v - l })}
			}}
	})
	add("LogSumExp", func(r *run) graphCase {
		n := 1 + r.rnd.Intn(5)
		var in []mx
		for i := 0; i < n; i++ {
			in = append(in, r.kinkFree(1, 1))
		}
		if r.rnd.Intn(3) == 0 {
			in = []mx{r.kinkFree(n, 1)}
		}
		return graphCase{in: in, tol: 4,
			run: func(x []mat.Tensor) []mat.Tensor { return one(ag.LogSumExp(x...)) },
			want: func(in []mx) []mx {
				var v []float64
				for _, x := range in {
					v = append(v, x.v...)
				}
				return []mx{col(lse(v))}
			}}
	})
	parts := func(name string, gen func(r *run) mx, f func(x mat.Tensor) []mat.Tensor, want func(x mx) []mx) {
		add(name, func(r *run) graphCase {
			return graphCase{in: []mx{gen(r)},
				run:  func(x []mat.Tensor) []mat.Tensor { return f(x[0]) },
				want: func(in []mx) []mx { return want(in[0]) }}
		})
	}
	mat1 := func(r *run) mx { return r.kinkFree(1+r.rnd.Intn(5), 1+r.rnd.Intn(5)) }
	parts("RowViews", mat1, ag.RowViews, func(x mx) []mx {
		var ys []mx
		for i := 0; i < x.r; i++ {
			ys = append(ys, newMx(1, x.c, func(_, j int) float64 { return x.at(i, j) }))
		}
		return ys
	})
	parts("ColViews", mat1, ag.ColViews, func(x mx) []mx {
		var ys []mx
		for j := 0; j < x.c; j++ {
			ys = append(ys, newMx(x.r, 1, func(i, _ int) float64 { return x.at(i, j) }))
		}
		return ys
	})
	each := func(x mx) []mx {
		var ys []mx
		for _, v := range x.v {
			ys = append(ys, col(v))
		}
		return ys
	}
	parts("SeparateVec", func(r *run) mx { return r.vecKF() }, ag.SeparateVec, each)
	parts("SeparateMatrix", mat1, func(x mat.Tensor) []mat.Tensor {
		var ys []mat.Tensor
		for _, row := range ag.SeparateMatrix(x) {
			if len(row) != x.Value().Shape()[1] {
				return nil
			}
			ys = append(ys, row...)
		}
		return ys
	}, each)
	add("SplitVec", func(r *run) graphCase {
		n, d := 1+r.rnd.Intn(5), 1+r.rnd.Intn(9)
		return graphCase{in: []mx{r.kinkFree(n*d, 1)}, desc: fmt.Sprintf("%d chunks", n),
			run: func(x []mat.Tensor) []mat.Tensor { return ag.SplitVec(x[0], n) },
			want: func(in []mx) []mx {
				var ys []mx
				for i := 0; i < n; i++ {
					ys = append(ys, col(in[0].v[i*d:(i+1)*d]...))
				}
				return ys
			}}
	})
	add("Map", func(r *run) graphCase {
		return graphCase{in: list(r), run: func(x []mat.Tensor) []mat.Tensor { return ag.Map(ag.Square, x) },
			want: func(in []mx) []mx {
				var ys []mx
				for _, x := range in {
					ys = append(ys, lift(x, func(v float64) float64 { return v * v }))
				}
				return ys
			}}
	})
	add("Map2", func(r *run) graphCase {
		in := list(r)
		in = append(in, list(r)...)
		n := len(in) / 2
		in = in[:2*n]
		for i := 0; i < n; i++ {
			in[n+i] = r.kinkFree(in[i].r, in[i].c)
		}
		return graphCase{in: in, run: func(x []mat.Tensor) []mat.Tensor { return ag.Map2(ag.Sub, x[:n], x[n:]) },
			want: func(in []mx) []mx {
				var ys []mx
				for i := 0; i < n; i++ {
					ys = append(ys, lift2(in[i], in[n+i], func(a, b float64) float64 { return a - b }))
				}
				return ys
			}}
	})
	add("Pad", func(r *run) graphCase {
		n := r.rnd.Intn(9)
		return graphCase{in: list(r), desc: fmt.Sprintf("to %d", n),
			run: func(x []mat.Tensor) []mat.Tensor {
				ys := ag.Pad(x, n, func(i int) mat.Tensor { return mat.Scalar(float64(100 + i)) })
				var out []mat.Tensor
				for _, y := range ys {
					out = append(out, ag.Copy(y))
				}
				return out
			},
			want: func(in []mx) []mx {
				var ys []mx
				for i := 0; i < n; i++ {
					if i < len(in) {
						ys = append(ys, in[i])
					} else {
						ys = append(ys, col(float64(100+i)))
					}
				}
				return ys
			}}
	})
	return gens
}

// runAgOps checks the operators of package ag; misuse panics.
func runAgOps(r *run, act bool, rounds int) {
	defer ag.SetForceSyncExecution(false)
	for _, g := range agGens(act) {
		for i := 0; i < rounds; i++ {
			c := g.gen(r)
			c.name = g.name
			r.runGraph(c, i%3 == 2)
		}
	}
	if act {
		return
	}
	a, b := build[float64](col(1, 2, 3)), build[float64](col(1, 2))
	r.n += 3
	if catch(func() { ag.SplitVec(a, 2) }) == nil {
		r.fail("forward", "ag.SplitVec", "3 elements are split in 2 chunks")
	}
	if catch(func() { ag.Map2(ag.Add, []mat.Tensor{a, b}, []mat.Tensor{a}) }) == nil {
		r.fail("forward", "ag.Map2", "lists of 2 and 1 tensors are combined")
	}
	if y := ag.Dropout(a, 0); y != mat.Tensor(a) {
		r.fail("forward", "ag.Dropout", "probability 0 gives another tensor: %v", toMx(y.Value()))
	}
	for k := 0; k < rounds; k++ {
		r.n++
		p := []float64{0, 0.25, 0.5, 0.9}[r.rnd.Intn(4)]
		x := r.kinkFree(r.dim1(), r.dim1())
		m := build[float64](x)
		m.SetRequiresGrad(true)
		y := ag.Dropout(m, p)
		if k%2 == 0 {
			y = ag.DropoutFunc(p)(m)
		}
		ym := toMx(y.Value())
		if !ym.same(x) {
			r.fail("forward", "ag.Dropout", "result %v for %v", ym, x)
			continue
		}
		for i := range x.v {
			if v := x.v[i] / (1 - p); !near(ym.v[i], v, 1e-9) && (ym.v[i] != 0 || p == 0) {
				r.fail("forward", "ag.Dropout", "probability %v: result %v for %v", p, ym, x)
				break
			}
		}
	}
}

// agKinds: the kinds of failure that count for a property.
func agKinds(prop string) []string {
	switch prop {
	case "C09":
		return []string{prop, "forward", "operands"}
	case "C10":
		return []string{prop, "backward"}
	case "C12":
		return []string{prop, "forward", "backward"}
	}
	return []string{prop}
}
