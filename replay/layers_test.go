package zzverif

import (
	"fmt"
	"math"
	"testing"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/convolution"
	"github.com/nlpodyssey/spago/nn/convolution/conv1x1"
	"github.com/nlpodyssey/spago/nn/convolution/convolution1d"
	"github.com/nlpodyssey/spago/nn/convolution/convolution2d"
	"github.com/nlpodyssey/spago/nn/crf"
	"github.com/nlpodyssey/spago/nn/flatten"
	"github.com/nlpodyssey/spago/nn/gmlp"
	"github.com/nlpodyssey/spago/nn/gnn/slstm"
	"github.com/nlpodyssey/spago/nn/highway"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/mlpmixer"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/pooling"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
	"github.com/nlpodyssey/spago/nn/sgu"
	"github.com/nlpodyssey/spago/nn/sqrdist"
)

// cursor hands out the leaves of a case in order.
type cursor[X any] struct {
	xs []X
	i  int
}

func (c *cursor[X]) next() X {
	c.i++
	return c.xs[c.i-1]
}

func (c *cursor[X]) take(n int) []X {
	c.i += n
	return c.xs[c.i-n : c.i]
}

func leaves(xs []mat.Tensor) *cursor[mat.Tensor] { return &cursor[mat.Tensor]{xs: xs} }
func values(xs []mx) *cursor[mx]                 { return &cursor[mx]{xs: xs} }

func pnext(c *cursor[mat.Tensor]) *nn.Param { return par(c.next()) }

// seq draws n column vectors.
func (r *run) seq(n, d int) []mx {
	var out []mx
	for i := 0; i < n; i++ {
		out = append(out, r.mx(d, 1))
	}
	return out
}

func (r *run) between(lo, hi int) int { return lo + r.rnd.Intn(hi-lo+1) }

// shapes draws a matrix of each of the shapes.
func (r *run) shapes(ds ...[2]int) []mx {
	var out []mx
	for _, d := range ds {
		out = append(out, r.mx(d[0], d[1]))
	}
	return out
}

func sum2(xs ...mx) mx {
	a := xs[0]
	for _, x := range xs[1:] {
		a = addMx(a, x)
	}
	return a
}

func had(a, b mx) mx   { return lift2(a, b, func(x, y float64) float64 { return x * y }) }
func sgmM(a mx) mx     { return lift(a, sgm) }
func tanhM(a mx) mx    { return lift(a, math.Tanh) }
func reluM(a mx) mx    { return lift(a, func(x float64) float64 { return math.Max(0, x) }) }
func oneMinus(a mx) mx { return lift(a, func(x float64) float64 { return 1 - x }) }
func geluM(a mx) mx {
	return lift(a, func(x float64) float64 {
		return 0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*x*x*x)))
	})
}

func stackMx(xs []mx) mx {
	return newMx(len(xs), len(xs[0].v), func(i, j int) float64 { return xs[i].v[j] })
}

func catMx(xs ...mx) mx {
	var v []float64
	for _, x := range xs {
		v = append(v, x.v...)
	}
	return col(v...)
}

func softV(x []float64) []float64 {
	m := math.Inf(-1)
	for _, a := range x {
		m = math.Max(m, a)
	}
	s := 0.0
	y := make([]float64, len(x))
	for i, a := range x {
		y[i] = math.Exp(a - m)
		s += y[i]
	}
	for i := range y {
		y[i] /= s
	}
	return y
}

// ---- recurrent layers (C22) ----

// cell is an oracle: the next state and the output.
type cell func(x mx, s []mx) []mx

// recurrence of n inputs: the first component of the state is the output.
func recur(xs []mx, f cell) []mx {
	var s, out []mx
	for _, x := range xs {
		s = f(x, s)
		out = append(out, s[0])
	}
	return out
}

func aff(b, w, x mx) mx { return addMx(b, mulMx(w, x)) }

func affR(b, w, x, wr mx, s []mx) mx {
	y := aff(b, w, x)
	if s != nil {
		y = addMx(y, mulMx(wr, s[0]))
	}
	return y
}

type rnnKind struct {
	name  string
	gates int // W, WRec, B for each
	build func(c *cursor[mat.Tensor], ref bool) nn.StandardModel
	cell  func(p []mx, ref bool) cell
}

var rnnKinds = []rnnKind{
	{"srn", 1, func(c *cursor[mat.Tensor], _ bool) nn.StandardModel {
		return &srn.Model{W: pnext(c), WRec: pnext(c), B: pnext(c)}
	}, func(p []mx, _ bool) cell {
		return func(x mx, s []mx) []mx { return []mx{tanhM(affR(p[2], p[0], x, p[1], s))} }
	}},
	{"gru", 3, func(c *cursor[mat.Tensor], _ bool) nn.StandardModel {
		return &gru.Model{WPart: pnext(c), WPartRec: pnext(c), BPart: pnext(c), WRes: pnext(c), WResRec: pnext(c), BRes: pnext(c), WCand: pnext(c), WCandRec: pnext(c), BCand: pnext(c)}
	}, func(p []mx, _ bool) cell {
		return func(x mx, s []mx) []mx {
			z := sgmM(affR(p[2], p[0], x, p[1], s))
			rs := sgmM(affR(p[5], p[3], x, p[4], s))
			cd := aff(p[8], p[6], x)
			if s != nil {
				cd = addMx(cd, mulMx(p[7], had(s[0], rs)))
			}
			y := had(z, tanhM(cd))
			if s != nil {
				y = addMx(y, had(oneMinus(z), s[0]))
			}
			return []mx{y}
		}
	}},
	{"lstm", 4, func(c *cursor[mat.Tensor], ref bool) nn.StandardModel {
		return &lstm.Model{UseRefinedGates: ref, WIn: pnext(c), WInRec: pnext(c), BIn: pnext(c), WOut: pnext(c), WOutRec: pnext(c), BOut: pnext(c), WFor: pnext(c), WForRec: pnext(c), BFor: pnext(c), WCand: pnext(c), WCandRec: pnext(c), BCand: pnext(c)}
	}, func(p []mx, ref bool) cell {
		return func(x mx, s []mx) []mx {
			in := sgmM(affR(p[2], p[0], x, p[1], s))
			out := sgmM(affR(p[5], p[3], x, p[4], s))
			fg := sgmM(affR(p[8], p[6], x, p[7], s))
			cd := tanhM(affR(p[11], p[9], x, p[10], s))
			if ref {
				in, out = had(in, x), had(out, x)
			}
			c := had(in, cd)
			if s != nil {
				c = addMx(c, had(fg, s[1]))
			}
			return []mx{had(out, tanhM(c)), c}
		}
	}},
}

func (r *run) rnnParams(k rnnKind, d, h int) []mx {
	var p []mx
	for g := 0; g < k.gates; g++ {
		p = append(p, r.shapes([2]int{h, d}, [2]int{h, h}, [2]int{h, 1})...)
	}
	return p
}

func rnnSize(k rnnKind) int { return 3 * k.gates }

// rnnDims: refined gates multiply with the input.
func (r *run) rnnDims(k rnnKind) (d, h int, ref bool) {
	d, h = r.between(1, 3), r.between(1, 3)
	if ref = k.name == "lstm" && r.rnd.Intn(2) == 0; ref {
		h = d
	}
	return
}

func rnnGen(k rnnKind) graphGen {
	return graphGen{k.name + ".Forward", func(r *run) graphCase {
		d, h, ref := r.rnnDims(k)
		n := r.between(1, 4)
		return graphCase{desc: fmt.Sprintf("%d inputs of %d, %d units, refined gates %v", n, d, h, ref), in: append(r.seq(n, d), r.rnnParams(k, d, h)...), tol: 5,
			run: func(x []mat.Tensor) []mat.Tensor {
				c := leaves(x)
				xs := c.take(n)
				return k.build(c, ref).Forward(xs...)
			},
			want: func(in []mx) []mx { return recur(in[:n], k.cell(in[n:], ref)) },
		}
	}}
}

// nextGen steps a cell from a given state.
func nextGen(k rnnKind) graphGen {
	return graphGen{k.name + ".Next", func(r *run) graphCase {
		d, h, ref := r.rnnDims(k)
		ns := map[string]int{"srn": 1, "gru": 1, "lstm": 2}[k.name]
		in := append(r.seq(1, d), r.seq(ns, h)...)
		return graphCase{desc: fmt.Sprintf("input of %d, %d units, refined gates %v", d, h, ref), in: append(in, r.rnnParams(k, d, h)...), tol: 5,
			run: func(x []mat.Tensor) []mat.Tensor {
				c := leaves(x)
				xs, st := c.next(), c.take(ns)
				switch m := k.build(c, ref).(type) {
				case *srn.Model:
					return one1(m.Next(&srn.State{Y: st[0]}, xs).Y)
				case *gru.Model:
					return one1(m.Next(&gru.State{Y: st[0]}, xs).Y)
				case *lstm.Model:
					s := m.Next(&lstm.State{Y: st[0], Cell: st[1]}, xs)
					return []mat.Tensor{s.Y, s.Cell}
				}
				panic("model")
			},
			want: func(in []mx) []mx { return k.cell(in[1+ns:], ref)(in[0], in[1:1+ns]) },
		}
	}}
}

var mergeNames = []string{"Concat", "Sum", "Prod", "Avg"}

func birnnGen(r *run) graphCase {
	a, b := anyOf(r, rnnKinds...), anyOf(r, rnnKinds...)
	d, n := r.between(1, 3), r.between(1, 4)
	mode := birnn.MergeType(r.rnd.Intn(4))
	h := r.between(1, 3)
	hb := h
	if mode == birnn.Concat {
		hb = r.between(1, 3)
	}
	in := append(r.seq(n, d), r.rnnParams(a, d, h)...)
	in = append(in, r.rnnParams(b, d, hb)...)
	return graphCase{desc: fmt.Sprintf("%s and %s, %d inputs of %d, merge %s", a.name, b.name, n, d, mergeNames[mode]), in: in, tol: 5,
		run: func(x []mat.Tensor) []mat.Tensor {
			c := leaves(x)
			xs := c.take(n)
			m := birnn.New(a.build(c, false), b.build(c, false), mode)
			return m.Forward(xs...)
		},
		want: func(in []mx) []mx {
			xs := in[:n]
			rev := make([]mx, n)
			for i := range xs {
				rev[n-1-i] = xs[i]
			}
			p := recur(xs, a.cell(in[n:n+rnnSize(a)], false))
			q := recur(rev, b.cell(in[n+rnnSize(a):], false))
			out := make([]mx, n)
			for i := range out {
				u, v := p[i], q[n-1-i]
				switch mode {
				case birnn.Concat:
					out[i] = catMx(u, v)
				case birnn.Sum:
					out[i] = addMx(u, v)
				case birnn.Prod:
					out[i] = had(u, v)
				case birnn.Avg:
					out[i] = lift2(u, v, func(x, y float64) float64 { return (x + y) / 2 })
				}
			}
			return out
		},
	}
}

// slstmGen: the sentence-state LSTM (Zhang et al., 2018).
func slstmGen(r *run) graphCase {
	d, h, n, steps := r.between(1, 3), r.between(1, 3), r.between(1, 3), r.between(1, 3)
	in := r.seq(n, d)
	for i := 0; i < 7; i++ {
		in = append(in, r.shapes([2]int{h, 3 * h}, [2]int{h, d}, [2]int{h, h}, [2]int{h, 1})...)
	}
	for i := 0; i < 3; i++ {
		in = append(in, r.shapes([2]int{h, h}, [2]int{h, h}, [2]int{h, 1})...)
	}
	in = append(in, r.seq(3, h)...)
	return graphCase{desc: fmt.Sprintf("%d inputs of %d, %d units, %d steps", n, d, h, steps), in: in, tol: 5,
		run: func(x []mat.Tensor) []mat.Tensor {
			c := leaves(x)
			xs := c.take(n)
			g4 := func() *slstm.HyperLinear4 {
				return &slstm.HyperLinear4{W: pnext(c), U: pnext(c), V: pnext(c), B: pnext(c)}
			}
			g3 := func() *slstm.HyperLinear3 { return &slstm.HyperLinear3{W: pnext(c), U: pnext(c), B: pnext(c)} }
			m := &slstm.Model{Config: slstm.Config{InputSize: d, OutputSize: h, Steps: steps},
				InputGate: g4(), LeftCellGate: g4(), RightCellGate: g4(), CellGate: g4(), SentCellGate: g4(), OutputGate: g4(), InputActivation: g4(),
				NonLocalSentCellGate: g3(), NonLocalInputGate: g3(), NonLocalSentOutputGate: g3(),
				StartH: pnext(c), EndH: pnext(c), InitValue: pnext(c)}
			return m.Forward(xs...)
		},
		want: func(in []mx) []mx {
			c := values(in)
			xs := c.take(n)
			var g4 [7][]mx
			for i := range g4 {
				g4[i] = c.take(4)
			}
			var g3 [3][]mx
			for i := range g3 {
				g3[i] = c.take(3)
			}
			start, end, init := c.next(), c.next(), c.next()
			hs, cs := make([]mx, n), make([]mx, n)
			for i := range hs {
				hs[i], cs[i] = init, init
			}
			g := init
			for t := 1; t < steps; t++ {
				nh, nc := make([]mx, n), make([]mx, n)
				for i := range xs {
					lh, lc, rh, rc := start, start, end, end
					if i > 0 {
						lh, lc = hs[i-1], cs[i-1]
					}
					if i < n-1 {
						rh, rc = hs[i+1], cs[i+1]
					}
					ctx := catMx(lh, hs[i], rh)
					pre := func(p []mx) mx { return sum2(p[3], mulMx(p[0], ctx), mulMx(p[2], g), mulMx(p[1], xs[i])) }
					ig, lg, rg, fg, sg, og := sgmM(pre(g4[0])), sgmM(pre(g4[1])), sgmM(pre(g4[2])), sgmM(pre(g4[3])), sgmM(pre(g4[4])), sgmM(pre(g4[5]))
					u := tanhM(pre(g4[6]))
					nc[i] = sum2(had(lg, lc), had(fg, cs[i]), had(rg, rc), had(sg, g), had(ig, u))
					nh[i] = had(og, tanhM(nc[i]))
				}
				avg := lift(sum2(hs...), func(x float64) float64 { return x / float64(n) })
				fg := sgmM(sum2(g3[0][2], mulMx(g3[0][0], g), mulMx(g3[0][1], avg)))
				og := sgmM(sum2(g3[2][2], mulMx(g3[2][0], g), mulMx(g3[2][1], avg)))
				cg := had(fg, g)
				for i := range xs {
					cg = addMx(cg, had(sgmM(sum2(g3[1][2], mulMx(g3[1][0], g), mulMx(g3[1][1], hs[i]))), cs[i]))
				}
				hs, cs, g = nh, nc, had(og, tanhM(cg))
			}
			return hs
		},
	}
}

func rnnGens() []graphGen {
	var g []graphGen
	for _, k := range rnnKinds {
		g = append(g, rnnGen(k), nextGen(k))
	}
	return append(g, graphGen{"birnn", birnnGen}, graphGen{"birnn (again)", birnnGen}, graphGen{"slstm", slstmGen})
}

func TestReplayC22(t *testing.T)  { runGraphs(t, "C22", rnnGens(), 60) }
func TestBoundedC22(t *testing.T) { runGraphs(t, "C22", rnnGens(), 40) }

// ---- attention (C20) ----

// attnOracle: queries, the rows of k and v, the factor.
func attnOracle(q []mx, k, v mx, f float64, mask bool) ([]mx, []mx) {
	var out, ws []mx
	for i, x := range q {
		s := mulMx(k, x)
		for j := range s.v {
			s.v[j] *= f
			if mask && len(q) > 1 && j > i {
				s.v[j] = math.Inf(-1)
			}
		}
		w := col(softV(s.v)...)
		ws = append(ws, w)
		out = append(out, mulMx(tr(v), w))
	}
	return out, ws
}

func sdpGen(r *run) graphCase {
	n, dk, dv := r.between(1, 4), r.between(1, 3), r.between(1, 3)
	mask := r.rnd.Intn(2) == 0
	nk := n
	if r.rnd.Intn(2) == 0 {
		nk = r.between(1, 4)
	}
	in := append(r.seq(n, dk), r.mx(nk, dk), r.mx(nk, dv), r.mx(1, 1))
	return graphCase{desc: fmt.Sprintf("%d queries of %d, %d keys, values of %d, mask %v", n, dk, nk, dv, mask), in: in, tol: 5,
		run: func(x []mat.Tensor) []mat.Tensor {
			a, w := attention.ScaledDotProductAttention(x[:n], x[n], x[n+1], x[n+2], mask)
			return append(append([]mat.Tensor{}, a...), w...)
		},
		want: func(in []mx) []mx {
			a, w := attnOracle(in[:n], in[n], in[n+1], in[n+2].v[0], mask)
			return append(a, w...)
		},
	}
}

type headDims struct {
	in, k, v int
}

func (r *run) headParams(d headDims) []mx {
	return r.shapes([2]int{d.k, d.in}, [2]int{d.k, 1}, [2]int{d.k, d.in}, [2]int{d.k, 1}, [2]int{d.v, d.in}, [2]int{d.v, 1})
}

func headModel(c *cursor[mat.Tensor], d headDims, f float64, mask, cross bool) *selfattention.Model {
	lin := func() *linear.Model { return &linear.Model{W: pnext(c), B: pnext(c)} }
	x := c.xs[0]
	return &selfattention.Model{Config: selfattention.Config{InputSize: d.in, QuerySize: d.k, KeySize: d.k, ValueSize: d.v, ScaleFactor: f, UseCausalMask: mask, IsCrossAttention: cross},
		Query: lin(), Key: lin(), Value: lin(), ScaleFactor: nn.Buf(sameType(x, col(f)))}
}

// headOracle returns outputs, weights and the keys and values.
func headOracle(p []mx, q, x []mx, f float64, mask bool, ck, cv []mx) (out, ws []mx, k, v []mx) {
	lin := func(w, b mx, xs []mx) []mx { return each(xs, func(x mx) mx { return aff(b, w, x) }) }
	pq := lin(p[0], p[1], q)
	k = append(append([]mx{}, ck...), lin(p[2], p[3], x)...)
	v = append(append([]mx{}, cv...), lin(p[4], p[5], x)...)
	out, ws = attnOracle(pq, stackMx(k), stackMx(v), f, mask)
	return
}

func selfGen(r *run) graphCase {
	n := r.between(1, 3)
	d := headDims{r.between(1, 3), r.between(1, 3), r.between(1, 3)}
	f := float64(r.between(1, 8)) / 8
	mask := r.rnd.Intn(2) == 0
	nx, separate := n, !mask && r.rnd.Intn(2) == 0
	var in []mx
	in = append(in, r.seq(n, d.in)...)
	if separate {
		nx = r.between(1, 3)
		in = append(in, r.seq(nx, d.in)...)
	}
	base := len(in)
	in = append(in, r.headParams(d)...)
	cross := separate && r.rnd.Intn(2) == 0
	calls := r.between(1, 2)
	if mask {
		calls = 1
	}
	if calls > 1 && !cross && (nx == 1 || d.k == 1 || d.v == 1) {
		// the gradients of rows that are columns as well are a known finding of C11
		d.k, d.v = 2, 2
		in = append(in[:base:base], r.headParams(d)...)
	}
	pick := func(base int) (int, int) {
		if separate {
			return n, base
		}
		return 0, n
	}
	return graphCase{desc: fmt.Sprintf("%d queries, %d others (separate %v, cross %v), %d calls with the cache, %+v factor %v mask %v", n, nx, separate, cross, calls, d, f, mask), in: in, tol: 5,
		run: func(x []mat.Tensor) []mat.Tensor {
			c := leaves(x)
			c.i = base
			m := headModel(c, d, f, mask, cross)
			lo, hi := pick(base)
			var out []mat.Tensor
			var cache selfattention.Cache
			for i := 0; i < calls; i++ {
				var a, w []mat.Tensor
				a, w, cache = m.Forward(cache, x[:n], x[lo:hi])
				out = append(append(out, a...), w...)
			}
			return append(out, cache[0], cache[1])
		},
		want: func(in []mx) []mx {
			lo, hi := pick(base)
			var out, k, v []mx
			for i := 0; i < calls; i++ {
				var ck, cv []mx
				if !cross {
					ck, cv = k, v
				}
				var a, w []mx
				a, w, k, v = headOracle(in[base:], in[:n], in[lo:hi], f, mask, ck, cv)
				out = append(append(out, a...), w...)
			}
			return append(out, stackMx(k), stackMx(v))
		},
	}
}

func multiGen(r *run) graphCase {
	n, heads := r.between(1, 4), r.between(1, 3)
	d := headDims{r.between(1, 3), r.between(1, 2), r.between(1, 2)}
	f := float64(r.between(1, 8)) / 8
	mask := r.rnd.Intn(2) == 0
	in := r.seq(n, d.in)
	for i := 0; i < heads; i++ {
		in = append(in, r.headParams(d)...)
	}
	o := r.between(1, 3)
	in = append(in, r.mx(o, heads*d.v), r.mx(o, 1))
	return graphCase{desc: fmt.Sprintf("%d inputs, %d heads, %+v factor %v mask %v", n, heads, d, f, mask), in: in, tol: 5,
		run: func(x []mat.Tensor) []mat.Tensor {
			c := leaves(x)
			xs := c.take(n)
			m := &multiheadattention.Model{}
			for i := 0; i < heads; i++ {
				m.Heads = append(m.Heads, headModel(c, d, f, mask, false))
			}
			m.OutputMerge = &linear.Model{W: pnext(c), B: pnext(c)}
			out, ws, cache := m.Forward(nil, xs, xs)
			if len(ws) != heads || len(cache) != heads {
				panic(fmt.Sprintf("%d weights, %d caches", len(ws), len(cache)))
			}
			for _, w := range ws {
				out = append(out[:len(out):len(out)], w...)
			}
			return out
		},
		want: func(in []mx) []mx {
			xs := in[:n]
			var per, ws [][]mx
			for i := 0; i < heads; i++ {
				a, w, _, _ := headOracle(in[n+6*i:n+6*i+6], xs, xs, f, mask, nil, nil)
				per, ws = append(per, a), append(ws, w)
			}
			var out []mx
			for i := range xs {
				var c []mx
				for _, h := range per {
					c = append(c, h[i])
				}
				out = append(out, aff(in[n+6*heads+1], in[n+6*heads], catMx(c...)))
			}
			for _, w := range ws {
				out = append(out, w...)
			}
			return out
		},
	}
}

var attnGens = []graphGen{
	{"ScaledDotProductAttention", sdpGen},
	{"selfattention", selfGen},
	{"multiheadattention", multiGen},
}

func TestReplayC20(t *testing.T)  { runGraphs(t, "C20", attnGens, 120) }
func TestBoundedC20(t *testing.T) { runGraphs(t, "C20", attnGens, 80) }

// ---- convolution and pooling (C21) ----

func conv2(w, x mx, sx, sy int) mx {
	return newMx((x.r-w.r)/sx+1, (x.c-w.c)/sy+1, func(i, j int) float64 {
		s := 0.0
		for a := 0; a < w.r; a++ {
			for b := 0; b < w.c; b++ {
				s += w.at(a, b) * x.at(i*sx+a, j*sy+b)
			}
		}
		return s
	})
}

func conv1(w, x mx, s int) mx { return tr(conv2(w, x, 1, s)) }

func conv1Gen(r *run) graphCase {
	wc, s, k, rows := r.between(1, 3), r.between(1, 3), r.between(0, 3), r.between(1, 3)
	return graphCase{desc: fmt.Sprint("stride ", s), in: []mx{r.mx(rows, wc), r.mx(rows, wc+s*k)},
		run:  func(x []mat.Tensor) []mat.Tensor { return one1(convolution.Conv1D(x[0], x[1], s)) },
		want: func(in []mx) []mx { return []mx{conv1(in[0], in[1], s)} }}
}

func conv2Gen(r *run) graphCase {
	wr, wc, sx, sy, kx, ky := r.between(1, 3), r.between(1, 3), r.between(1, 3), r.between(1, 3), r.between(0, 2), r.between(0, 2)
	return graphCase{desc: fmt.Sprint("strides ", sx, sy), in: []mx{r.mx(wr, wc), r.mx(wr+sx*kx, wc+sy*ky)},
		run:  func(x []mat.Tensor) []mat.Tensor { return one1(convolution.Conv2D(x[0], x[1], sx, sy)) },
		want: func(in []mx) []mx { return []mx{conv2(in[0], in[1], sx, sy)} }}
}

func convModelGen(two bool) func(r *run) graphCase {
	return func(r *run) graphCase {
		wr, wc, sx, sy, kx, ky := r.between(1, 2), r.between(1, 3), r.between(1, 2), r.between(1, 3), r.between(0, 2), r.between(0, 2)
		if !two {
			kx = 0
		}
		ci, co := r.between(1, 3), r.between(1, 3)
		dw := r.rnd.Intn(3) == 0
		np := ci * co
		if dw {
			co = ci
			np = co
		}
		var mask []int
		if !dw && r.rnd.Intn(2) == 0 {
			for i := 0; i < ci; i++ {
				mask = append(mask, r.rnd.Intn(2))
			}
			mask[r.rnd.Intn(ci)] = 1
		}
		act := anyOf(r, activation.Identity, activation.Tanh, activation.ReLU)
		var in []mx
		for i := 0; i < ci; i++ {
			in = append(in, r.mx(wr+sx*kx, wc+sy*ky))
		}
		for i := 0; i < np; i++ {
			in = append(in, r.mx(wr, wc), r.mx(1, 1))
		}
		return graphCase{desc: fmt.Sprintf("kernel %dx%d, channels %d -> %d, strides %d %d, depthwise %v, mask %v, activation %v", wr, wc, ci, co, sx, sy, dw, mask, act), in: in, tol: 5,
			run: func(x []mat.Tensor) []mat.Tensor {
				c := leaves(x)
				xs := c.take(ci)
				var ks, bs []*nn.Param
				for i := 0; i < np; i++ {
					ks, bs = append(ks, pnext(c)), append(bs, pnext(c))
				}
				if two {
					return (&convolution2d.Model{K: ks, B: bs, Config: convolution2d.Config{KernelSizeX: wr, KernelSizeY: wc, XStride: sx, YStride: sy, InputChannels: ci, OutputChannels: co, Mask: mask, DepthWise: dw, Activation: act}}).Forward(xs...)
				}
				return (&convolution1d.Model{K: ks, B: bs, Config: convolution1d.Config{KernelSizeX: wr, KernelSizeY: wc, YStride: sy, InputChannels: ci, OutputChannels: co, Mask: mask, DepthWise: dw, Activation: act}}).Forward(xs...)
			},
			want: func(in []mx) []mx {
				var out []mx
				for o := 0; o < co; o++ {
					var y mx
					for i := 0; i < ci; i++ {
						k := i + o*ci
						if dw {
							if i != o {
								continue
							}
							k = o
						}
						if mask != nil && mask[i] != 1 {
							continue
						}
						w, b := in[ci+2*k], in[ci+2*k+1].v[0]
						var z mx
						if two {
							z = conv2(w, in[i], sx, sy)
						} else {
							z = conv1(w, in[i], sy)
						}
						z = lift(z, func(x float64) float64 { return x + b })
						if y.v == nil {
							y = z
						} else {
							y = addMx(y, z)
						}
					}
					switch act {
					case activation.Tanh:
						y = tanhM(y)
					case activation.ReLU:
						y = reluM(y)
					}
					out = append(out, y)
				}
				return out
			},
		}
	}
}

func conv1x1Gen(r *run) graphCase {
	ci, co, d := r.between(1, 3), r.between(1, 3), r.between(1, 4)
	return graphCase{desc: fmt.Sprintf("channels %d -> %d", ci, co), in: append(r.seq(ci, d), r.mx(co, ci), r.mx(co, 1)),
		run: func(x []mat.Tensor) []mat.Tensor {
			m := &conv1x1.Model{Config: conv1x1.Config{InputChannels: ci, OutputChannels: co}, W: par(x[ci]), B: par(x[ci+1])}
			return m.Forward(x[:ci]...)
		},
		want: func(in []mx) []mx { return conv1x1Of(in[:ci], in[ci], in[ci+1]) },
	}
}

func conv1x1Of(xs []mx, w, b mx) []mx {
	var out []mx
	for o := 0; o < w.r; o++ {
		out = append(out, newMx(len(xs[0].v), 1, func(k, _ int) float64 {
			s := b.v[o]
			for i := range xs {
				s += w.at(o, i) * xs[i].v[k]
			}
			return s
		}))
	}
	return out
}

func poolGen(r *run) graphCase {
	pr, pc, n := r.between(1, 3), r.between(1, 3), r.between(1, 2)
	rows, cols := pr*r.between(1, 3), pc*r.between(1, 3)
	var in []mx
	for i := 0; i < n; i++ {
		// distinct elements: the largest of a window is one of them
		x := r.mx(rows, cols)
		off := r.val()
		for k, p := range r.rnd.Perm(rows * cols) {
			x.v[k] = float64(p)/4 - off
		}
		in = append(in, x)
	}
	return graphCase{desc: fmt.Sprintf("windows of %dx%d", pr, pc), in: in,
		run: func(x []mat.Tensor) []mat.Tensor { return pooling.NewMax(pr, pc).Forward(x...) },
		want: func(in []mx) []mx {
			return each(in, func(x mx) mx {
				return newMx(x.r/pr, x.c/pc, func(i, j int) float64 {
					m := math.Inf(-1)
					for a := 0; a < pr; a++ {
						for b := 0; b < pc; b++ {
							m = math.Max(m, x.at(i*pr+a, j*pc+b))
						}
					}
					return m
				})
			})
		}}
}

var convGens = []graphGen{
	{"Conv1D", conv1Gen}, {"Conv2D", conv2Gen},
	{"convolution1d", convModelGen(false)}, {"convolution2d", convModelGen(true)},
	{"conv1x1", conv1x1Gen}, {"pooling", poolGen},
}

func TestReplayC21(t *testing.T)  { runGraphs(t, "C21", convGens, 90) }
func TestBoundedC21(t *testing.T) { runGraphs(t, "C21", convGens, 60) }

// ---- CRF (C19) ----

// scores of all label sequences of n tokens.
func crfAll(em []mx, tr mx, f func(seq []int, score float64)) {
	n, k := len(em), tr.r-1
	seq := make([]int, n)
	for {
		s := tr.at(0, seq[0]+1) + tr.at(seq[n-1]+1, 0)
		for i := range seq {
			s += em[i].v[seq[i]]
			if i > 0 {
				s += tr.at(seq[i-1]+1, seq[i]+1)
			}
		}
		f(seq, s)
		i := n - 1
		for ; i >= 0; i-- {
			if seq[i]++; seq[i] < k {
				break
			}
			seq[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func crfGen(r *run) graphCase {
	k, n := r.between(1, 4), r.between(1, 4)
	target := make([]int, n)
	for i := range target {
		target[i] = r.rnd.Intn(k)
	}
	return graphCase{desc: fmt.Sprintf("%d labels, target %v", k, target), in: append(r.seq(n, k), r.mx(k+1, k+1)), tol: 20,
		run: func(x []mat.Tensor) []mat.Tensor {
			m := &crf.Model{Size: k, TransitionScores: par(x[n])}
			return one1(m.NegativeLogLoss(x[:n], target))
		},
		want: func(in []mx) []mx {
			var all []float64
			gold := 0.0
			crfAll(in[:n], in[n], func(seq []int, s float64) {
				all = append(all, s)
				same := true
				for i := range seq {
					same = same && seq[i] == target[i]
				}
				if same {
					gold = s
				}
			})
			return []mx{col(lse(all) - gold)}
		},
	}
}

func viterbiCases(r *run, rounds int) {
	for i := 0; i < rounds; i++ {
		k, n := r.between(1, 4), r.between(1, 5)
		f32 := i%3 == 2
		em, tm := r.seq(n, k), r.mx(k+1, k+1)
		big := []float64{1, 1, 1e6, 1e-6, 100}[r.rnd.Intn(5)]
		for j := range em {
			em[j] = toMx(buildAs(f32, lift(em[j], func(x float64) float64 { return (x - 0.5) * big })))
		}
		if r.rnd.Intn(4) == 0 { // a forbidden transition
			tm.v[r.rnd.Intn(len(tm.v))] = -1e9
		}
		if r.rnd.Intn(3) == 0 { // all scores far below zero
			tm = lift(tm, func(x float64) float64 { return x - 1000 })
		}
		if r.rnd.Intn(3) == 0 { // many equal scores
			for j := range em {
				em[j] = lift(em[j], func(x float64) float64 { return math.Round(x / big) })
			}
			if r.rnd.Intn(2) == 0 {
				tm = lift(tm, math.Round)
			}
		}
		tm = toMx(buildAs(f32, tm))
		xs := make([]mat.Tensor, n)
		for j := range em {
			xs[j] = buildAs(f32, em[j])
		}
		desc := fmt.Sprintf("%d labels, emissions%s, transitions %v, float32=%v", k, mxList(em), tm, f32)
		r.n++
		var got []int
		if p := catch(func() {
			got = (&crf.Model{Size: k, TransitionScores: &nn.Param{Matrix: buildAs(f32, tm)}}).Decode(xs)
		}); p != nil {
			r.fail("decode", "crf.Decode", "%s: panics: %v", desc, p)
			return
		}
		best, mine := math.Inf(-1), math.NaN()
		crfAll(em, tm, func(seq []int, s float64) {
			best = math.Max(best, s)
			if len(got) == n {
				same := true
				for j := range seq {
					same = same && seq[j] == got[j]
				}
				if same {
					mine = s
				}
			}
		})
		if !(mine >= best-1e-9*math.Max(1, math.Abs(best))) {
			r.fail("decode", "crf.Decode", "%s: decoded %v with score %v, the best is %v", desc, got, mine, best)
			return
		}
	}
}

func crfRun(t *testing.T, rounds int) {
	r := newRun(t, "C19")
	defer ag.SetForceSyncExecution(false)
	viterbiCases(r, r.rounds(rounds*5))
	for i := 0; i < r.rounds(rounds); i++ {
		c := crfGen(r)
		c.name = "crf.NegativeLogLoss"
		r.runGraph(c, i%3 == 2)
	}
	r.done("decoding against all label sequences, the loss and its gradients against the sum over all sequences, up to 4 labels and 5 tokens (bounded)")
}

func TestReplayC19(t *testing.T)  { crfRun(t, 120) }
func TestBoundedC19(t *testing.T) { crfRun(t, 80) }

// ---- feed-forward layers (C29) ----

func linearGen(r *run) graphCase {
	d, o, n := r.between(1, 4), r.between(1, 4), r.between(0, 3)
	if n == 0 {
		n = 1
	}
	return graphCase{in: append(r.seq(n, d), r.mx(o, d), r.mx(o, 1)),
		run: func(x []mat.Tensor) []mat.Tensor {
			return (&linear.Model{W: par(x[n]), B: par(x[n+1])}).Forward(x[:n]...)
		},
		want: func(in []mx) []mx { return each(in[:n], func(x mx) mx { return aff(in[n+1], in[n], x) }) }}
}

var hwActs = map[activation.Activation]func(mx) mx{activation.Tanh: tanhM, activation.ReLU: reluM, activation.Sigmoid: sgmM, activation.Identity: func(a mx) mx { return a }}

func highwayGen(r *run) graphCase {
	d, n := r.between(1, 4), r.between(1, 3)
	act := anyOf(r, activation.Tanh, activation.ReLU, activation.Sigmoid, activation.Identity)
	return graphCase{desc: fmt.Sprint("activation ", act), in: append(r.seq(n, d), r.shapes([2]int{d, d}, [2]int{d, 1}, [2]int{d, d}, [2]int{d, 1})...), tol: 5,
		run: func(x []mat.Tensor) []mat.Tensor {
			return (&highway.Model{WIn: par(x[n]), BIn: par(x[n+1]), WT: par(x[n+2]), BT: par(x[n+3]), Activation: act}).Forward(x[:n]...)
		},
		want: func(in []mx) []mx {
			return each(in[:n], func(x mx) mx {
				t := sgmM(aff(in[n+3], in[n+2], x))
				return addMx(had(t, hwActs[act](aff(in[n+1], in[n], x))), had(oneMinus(t), x))
			})
		}}
}

func sqrdistGen(r *run) graphCase {
	d, k, n := r.between(1, 4), r.between(1, 3), r.between(1, 3)
	return graphCase{in: append(r.seq(n, d), r.mx(k, d)),
		run: func(x []mat.Tensor) []mat.Tensor { return (&sqrdist.Model{B: par(x[n])}).Forward(x[:n]...) },
		want: func(in []mx) []mx {
			return each(in[:n], func(x mx) mx { return col(sq(mulMx(in[n], x).v)) })
		}}
}

func flattenGen(r *run) graphCase {
	n := r.between(1, 3)
	var in []mx
	for i := 0; i < n; i++ {
		in = append(in, r.mx(r.between(1, 3), r.between(1, 3)))
	}
	return graphCase{in: in,
		run:  func(x []mat.Tensor) []mat.Tensor { return flatten.New().Forward(x...) },
		want: func(in []mx) []mx { return []mx{catMx(in...)} }}
}

func layerNormOf(x, w, b mx, eps float64) mx {
	m, d := meanOf(x.v), math.Sqrt(varOf(x.v)+eps)
	return newMx(x.r, 1, func(i, _ int) float64 { return (x.v[i]-m)/d*w.v[i] + b.v[i] })
}

// sguOf: norm w, b, projection w, b.
func sguOf(xs []mx, p []mx, act func(mx) mx) []mx {
	var gate, res []mx
	for _, x := range xs {
		h := len(x.v) / 2
		res = append(res, col(x.v[:h]...))
		gate = append(gate, layerNormOf(col(x.v[h:]...), p[0], p[1], lnEps))
	}
	gate = conv1x1Of(gate, p[2], p[3])
	var out []mx
	for i := range gate {
		out = append(out, had(act(gate[i]), res[i]))
	}
	return out
}

func lnModel(c *cursor[mat.Tensor]) *layernorm.Model {
	return &layernorm.Model{W: pnext(c), B: pnext(c), Eps: nn.Buf(sameType(c.xs[0], col(lnEps)))}
}

func sguModel(c *cursor[mat.Tensor], n, dim int, act activation.Activation) *sgu.Model {
	m := &sgu.Model{Config: sgu.Config{Dim: dim, DimSeq: n, Activation: act}, Norm: lnModel(c)}
	m.Proj = &conv1x1.Model{Config: conv1x1.Config{InputChannels: n, OutputChannels: n}, W: pnext(c), B: pnext(c)}
	if act != activation.Identity {
		m.Act = activation.New(act)
	}
	return m
}

func sguGen(r *run) graphCase {
	n, h := r.between(1, 3), r.between(2, 3)
	act := anyOf(r, activation.Tanh, activation.Identity)
	var in []mx
	for i := 0; i < n; i++ {
		in = append(in, catMx(r.spread(h), r.spread(h)))
	}
	return graphCase{desc: fmt.Sprint("activation ", act), in: append(in, r.shapes([2]int{h, 1}, [2]int{h, 1}, [2]int{n, n}, [2]int{n, 1})...), tol: 20,
		run: func(x []mat.Tensor) []mat.Tensor {
			c := leaves(x)
			xs := c.take(n)
			return sguModel(c, n, 2*h, act).Forward(xs...)
		},
		want: func(in []mx) []mx { return sguOf(in[:n], in[n:], hwActs[act]) }}
}

func gmlpGen(r *run) graphCase {
	n, d, h := r.between(1, 3), r.between(2, 3), r.between(2, 3)
	var in []mx
	for i := 0; i < n; i++ {
		in = append(in, r.spread(d))
	}
	in = append(in, r.shapes([2]int{2 * h, d}, [2]int{2 * h, 1}, [2]int{h, 1}, [2]int{h, 1}, [2]int{n, n}, [2]int{n, 1}, [2]int{d, h}, [2]int{d, 1})...)
	in = append(in, r.shapes([2]int{d, 1}, [2]int{d, 1})...)
	wrap := r.rnd.Intn(3) // 0: the block; 1: in a pre-norm; 2: in a residual of a pre-norm
	return graphCase{desc: fmt.Sprint("wrap ", wrap), in: in, tol: 50,
		keep: func(in []mx, f32 bool) bool {
			// the gates are normalised: well conditioned ones only
			for _, x := range in[:n] {
				if wrap > 0 {
					x = layerNormOf(x, in[n+8], in[n+9], lnEps)
				}
				g := geluM(aff(in[n+1], in[n], x))
				if varOf(g.v[h:]) < 0.01 || math.Sqrt(sq(g.v)) > 1e4 {
					return false
				}
			}
			return true
		},
		run: func(x []mat.Tensor) []mat.Tensor {
			c := leaves(x)
			xs := c.take(n)
			b := &gmlp.Block{}
			b.Layers = append(b.Layers, &linear.Model{W: pnext(c), B: pnext(c)}, activation.New(activation.GELU), sguModel(c, n, 2*h, activation.Identity), &linear.Model{W: pnext(c), B: pnext(c)})
			switch wrap {
			case 1:
				return (&gmlp.PreNorm{Block: b, Norm: lnModel(c)}).Forward(xs...)
			case 2:
				return (&gmlp.Residual{PreNorm: &gmlp.PreNorm{Block: b, Norm: lnModel(c)}}).Forward(xs...)
			}
			return b.Forward(xs...)
		},
		want: func(in []mx) []mx {
			xs := in[:n]
			p := in[n:]
			if wrap > 0 {
				xs = each(xs, func(x mx) mx { return layerNormOf(x, p[8], p[9], lnEps) })
			}
			ys := each(xs, func(x mx) mx { return geluM(aff(p[1], p[0], x)) })
			ys = sguOf(ys, p[2:6], hwActs[activation.Identity])
			ys = each(ys, func(x mx) mx { return aff(p[7], p[6], x) })
			if wrap == 2 {
				for i := range ys {
					ys[i] = addMx(ys[i], in[i])
				}
			}
			return ys
		}}
}

func mixerGen(r *run) graphCase {
	n, d := r.between(1, 3), r.between(2, 3)
	ht, hc := r.between(1, 3), r.between(1, 3)
	at, ac := anyOf(r, activation.Tanh, activation.Sigmoid), anyOf(r, activation.Tanh, activation.Sigmoid)
	var in []mx
	for i := 0; i < n; i++ {
		in = append(in, r.spread(d))
	}
	in = append(in, r.shapes([2]int{d, 1}, [2]int{d, 1}, [2]int{ht, n}, [2]int{ht, 1}, [2]int{n, ht}, [2]int{n, 1}, [2]int{d, 1}, [2]int{d, 1}, [2]int{hc, d}, [2]int{hc, 1}, [2]int{d, hc}, [2]int{d, 1})...)
	ff := func(x mx, p []mx, act func(mx) mx) mx { return aff(p[3], p[2], act(aff(p[1], p[0], x))) }
	mid := func(in []mx) []mx {
		p := in[n:]
		nm := each(in[:n], func(x mx) mx { return layerNormOf(x, p[0], p[1], lnEps) })
		var out []mx
		for i := 0; i < n; i++ {
			out = append(out, newMx(d, 1, func(k, _ int) float64 {
				c := newMx(n, 1, func(j, _ int) float64 { return nm[j].v[k] })
				return ff(c, p[2:6], hwActs[at]).v[i] + in[i].v[k]
			}))
		}
		return out
	}
	return graphCase{desc: fmt.Sprintf("%d inputs, activations %v %v", n, at, ac), in: in, tol: 50,
		keep: func(in []mx, f32 bool) bool {
			for _, x := range mid(in) {
				if varOf(x.v) < 0.05 {
					return false
				}
			}
			return true
		},
		run: func(x []mat.Tensor) []mat.Tensor {
			c := leaves(x)
			xs := c.take(n)
			mlp := func(a activation.Activation) *mlpmixer.FeedForward {
				f := &mlpmixer.FeedForward{}
				f.Layers = append(f.Layers, &linear.Model{W: pnext(c), B: pnext(c)}, activation.New(a), &linear.Model{W: pnext(c), B: pnext(c)})
				return f
			}
			m := &mlpmixer.MixerBlock{Config: mlpmixer.Config{InputSize: d, Channels: n}}
			m.TokenLayerNorm = lnModel(c)
			m.TokenMixerFF = mlp(at)
			m.ChannelLayerNorm = lnModel(c)
			m.ChannelMixerFF = mlp(ac)
			return m.Forward(xs...)
		},
		want: func(in []mx) []mx {
			p := in[n:]
			return each(mid(in), func(x mx) mx {
				return addMx(x, ff(layerNormOf(x, p[6], p[7], lnEps), p[8:12], hwActs[ac]))
			})
		}}
}

var ffGens = []graphGen{
	{"linear", linearGen}, {"highway", highwayGen}, {"sqrdist", sqrdistGen}, {"flatten", flattenGen},
	{"sgu", sguGen}, {"gmlp", gmlpGen}, {"mlpmixer", mixerGen},
}

func TestReplayC29(t *testing.T)  { runGraphs(t, "C29", ffGens, 60) }
func TestBoundedC29(t *testing.T) { runGraphs(t, "C29", ffGens, 40) }
