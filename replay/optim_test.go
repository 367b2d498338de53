package zzverif

import (
	"errors"
	"fmt"
	"math"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/adagrad"
	"github.com/nlpodyssey/spago/optimizers/adam"
	"github.com/nlpodyssey/spago/optimizers/decay/exponential"
	"github.com/nlpodyssey/spago/optimizers/decay/hyperbolic"
	"github.com/nlpodyssey/spago/optimizers/gradclipper"
	"github.com/nlpodyssey/spago/optimizers/lamb"
	"github.com/nlpodyssey/spago/optimizers/radam"
	"github.com/nlpodyssey/spago/optimizers/rmsprop"
	"github.com/nlpodyssey/spago/optimizers/sgd"
)

// rule is one optimizer under test with the oracle of its update rule.
type rule struct {
	name  string
	strat optimizers.OptimizationStrategy
	next  func() // a new example or batch begins
	// state returns the two state vectors the rule keeps (nil: zeros)
	state func(p *nn.Param) (a, b mat.Matrix)
	// step computes the new weights and state
	step func(w, g, a, b []float64, t int) (w2, a2, b2 []float64, ok bool)
	desc string
}

func anyOf[X any](r *run, xs ...X) X { return xs[r.rnd.Intn(len(xs))] }

func optimRules[T float.DType](r *run) []func() rule {
	lr := func() float64 { return anyOf[float64](r, 0.001, 0.01, 0.1, 0.5, 1) }
	b1 := func() float64 { return anyOf[float64](r, 0, 0.3, 0.5, 0.9) }
	b2 := func() float64 { return anyOf[float64](r, 0.9, 0.95, 0.99, 0.999) }
	eps := func() float64 { return anyOf[float64](r, 1e-8, 1e-4, 0.1) }
	alphaOf := func(s, b1, b2 float64, t int) float64 {
		return s * math.Sqrt(1-math.Pow(b2, float64(t))) / (1 - math.Pow(b1, float64(t)))
	}
	moments := func(g, v, m []float64, b1, b2 float64) (v2, m2 []float64) {
		v2, m2 = make([]float64, len(g)), make([]float64, len(g))
		for i, x := range g {
			v2[i] = b1*v[i] + (1-b1)*x
			m2[i] = b2*m[i] + (1-b2)*x*x
		}
		return
	}
	adamLike := func(lambda float64) rule {
		s, p, q, e := lr(), b1(), b2(), eps()
		c := adam.NewConfig(s, p, q, e)
		if lambda != 0 {
			c = adam.NewAdamWConfig(s, p, q, e, lambda)
		}
		o := adam.New(c)
		return rule{
			name: "Adam", strat: o, next: o.IncExample, desc: fmt.Sprintf("adam step=%v b1=%v b2=%v eps=%v lambda=%v", s, p, q, e, lambda),
			state: func(p *nn.Param) (mat.Matrix, mat.Matrix) { st := p.State.(*adam.State); return st.V, st.M },
			step: func(w, g, v, m []float64, t int) ([]float64, []float64, []float64, bool) {
				v2, m2 := moments(g, v, m, p, q)
				w2 := make([]float64, len(w))
				for i := range w {
					w2[i] = w[i] - alphaOf(s, p, q, t)*(v2[i]/(math.Sqrt(m2[i])+e)+lambda*w[i])
				}
				return w2, v2, m2, true
			},
		}
	}
	return []func() rule{
		func() rule { return adamLike(0) },
		func() rule { return adamLike(anyOf[float64](r, 0.01, 0.1, 1)) },
		func() rule {
			c := sgd.Config{LR: lr(), Mu: anyOf[float64](r, 0, 0.5, 0.9), Nesterov: r.rnd.Intn(2) == 0}
			return rule{
				name: "SGD", strat: sgd.New[T](sgd.NewConfig(c.LR, c.Mu, c.Nesterov)), desc: fmt.Sprintf("sgd %+v", c),
				state: func(p *nn.Param) (mat.Matrix, mat.Matrix) { return p.State.(*sgd.State).V, nil },
				step: func(w, g, v, _ []float64, _ int) ([]float64, []float64, []float64, bool) {
					w2, v2 := make([]float64, len(w)), make([]float64, len(w))
					for i := range w {
						v2[i] = c.Mu*v[i] + c.LR*g[i]
						d := v2[i]
						if c.Nesterov {
							d = (1+c.Mu)*v2[i] - c.Mu*v[i]
						}
						w2[i] = w[i] - d
					}
					return w2, v2, nil, true
				},
			}
		},
		func() rule {
			c := adagrad.Config{LR: lr(), Epsilon: eps()}
			return rule{
				name: "AdaGrad", strat: adagrad.New[T](adagrad.NewConfig(c.LR, c.Epsilon)), desc: fmt.Sprintf("adagrad %+v", c),
				state: func(p *nn.Param) (mat.Matrix, mat.Matrix) { return p.State.(*adagrad.State).M, nil },
				step: func(w, g, m, _ []float64, _ int) ([]float64, []float64, []float64, bool) {
					w2, m2 := make([]float64, len(w)), make([]float64, len(w))
					for i := range w {
						m2[i] = m[i] + g[i]*g[i]
						w2[i] = w[i] - c.LR*g[i]/(math.Sqrt(m2[i])+c.Epsilon)
					}
					return w2, m2, nil, true
				},
			}
		},
		func() rule {
			c := rmsprop.Config{LR: lr(), Epsilon: eps(), Decay: anyOf[float64](r, 0.5, 0.9, 0.95)}
			return rule{
				name: "RMSProp", strat: rmsprop.New[T](rmsprop.NewConfig(c.LR, c.Epsilon, c.Decay)), desc: fmt.Sprintf("rmsprop %+v", c),
				state: func(p *nn.Param) (mat.Matrix, mat.Matrix) { return p.State.(*rmsprop.State).V, nil },
				step: func(w, g, m, _ []float64, _ int) ([]float64, []float64, []float64, bool) {
					w2, m2 := make([]float64, len(w)), make([]float64, len(w))
					for i := range w {
						m2[i] = c.Decay*m[i] + (1-c.Decay)*g[i]*g[i]
						w2[i] = w[i] - c.LR*g[i]/(math.Sqrt(m2[i])+c.Epsilon)
					}
					return w2, m2, nil, true
				},
			}
		},
		func() rule {
			s, p, q, e, la := lr(), b1(), b2(), eps(), anyOf[float64](r, 0, 0.1, 0.5)
			o := lamb.New[T](lamb.NewConfig(s, p, q, e, la))
			return rule{
				name: "Lamb", strat: o, next: o.IncExample, desc: fmt.Sprintf("lamb step=%v b1=%v b2=%v eps=%v lambda=%v", s, p, q, e, la),
				state: func(p *nn.Param) (mat.Matrix, mat.Matrix) { st := p.State.(*lamb.State); return st.V, st.M },
				step: func(w, g, v, m []float64, t int) ([]float64, []float64, []float64, bool) {
					v2, m2 := moments(g, v, m, p, q)
					d := make([]float64, len(w))
					for i := range w {
						d[i] = v2[i]/(math.Sqrt(m2[i])+e) + la*w[i]
					}
					wn, dn := math.Sqrt(sq(w)), math.Sqrt(sq(d))
					trust := 1.0
					if wn != 0 && dn != 0 {
						trust = wn / dn
					}
					w2 := make([]float64, len(w))
					for i := range w {
						w2[i] = w[i] - alphaOf(s, p, q, t)*trust*d[i]
					}
					return w2, v2, m2, (wn == 0 || wn > 1e-5) && (dn == 0 || dn > 1e-3)
				},
			}
		},
		func() rule {
			s, p, q, e := lr(), b1(), b2(), eps()
			o := radam.New[T](radam.NewConfig(s, p, q, e))
			return rule{
				name: "RAdam", strat: o, next: o.IncBatch, desc: fmt.Sprintf("radam step=%v b1=%v b2=%v eps=%v", s, p, q, e),
				state: func(p *nn.Param) (mat.Matrix, mat.Matrix) { st := p.State.(*radam.State); return st.M, st.V },
				step: func(w, g, m, v []float64, t int) ([]float64, []float64, []float64, bool) {
					m2, v2 := moments(g, m, v, p, q)
					roMax := 2/(1-q) - 1
					b2t := math.Pow(q, float64(t))
					ro := roMax - 2*float64(t)*b2t/(1-b2t)
					rect := 1.0
					if ro > 4 {
						rect = math.Sqrt((ro - 4) * (ro - 2) * roMax / ((roMax - 4) * (roMax - 2) * ro))
					}
					al := alphaOf(s, p, q, t) * rect
					w2 := make([]float64, len(w))
					for i := range w {
						w2[i] = w[i] - al*m2[i]/(math.Sqrt(v2[i])+e*math.Sqrt(1-b2t))
					}
					return w2, m2, v2, math.Abs(ro-4) > 1e-6
				},
			}
		},
	}
}

// other state: of no optimizer
type otherState struct{ X int }

func optimRun[T float.DType](r *run, ri int) {
	ru := optimRules[T](r)[ri]()
	f32 := is32(mat.NewDense[T](mat.WithShape(1, 1)))
	tol := tolOf(f32)
	var params []*nn.Param
	n := 1 + r.rnd.Intn(4)
	for i := 0; i < n; i++ {
		a := r.mx(r.dim(), 1+r.rnd.Intn(4))
		if r.rnd.Intn(12) == 0 {
			a = lift(a, func(float64) float64 { return 0 })
		}
		params = append(params, nn.NewParam(build[T](a)))
	}
	steps := 1 + r.rnd.Intn(6)
	whole := r.rnd.Intn(2) == 0 // by Optimizer.Optimize or parameter by parameter
	first := 1
	if r.rnd.Intn(4) == 0 {
		first = anyOf[int](r, 20, 300, 1500, 20000)
		for t := 1; t < first && ru.next != nil; t++ {
			ru.next()
		}
	}
	for t := first; t < first+steps; t++ {
		if t > first && ru.next != nil {
			ru.next()
		}
		var ws, as, bs, w2, a2, b2, gs [][]float64
		var oks, has []bool
		for _, p := range params {
			w := toMx(p).v
			g := make([]float64, len(w))
			hg := r.rnd.Intn(5) > 0
			if hg {
				ga := r.mx(p.Shape()[0], p.Shape()[1])
				copy(g, ga.v)
				p.AccGrad(build[T](ga))
				if r.rnd.Intn(3) == 0 {
					gb := r.mx(ga.r, ga.c)
					p.AccGrad(build[T](gb))
					for i := range g {
						g[i] += gb.v[i]
					}
				}
			}
			a, b := make([]float64, len(w)), make([]float64, len(w))
			if p.State != nil {
				x, y := ru.state(p)
				a = toMx(x).v
				if y != nil {
					b = toMx(y).v
				}
			}
			nw, na, nb, ok := ru.step(w, g, a, b, t)
			ws, as, bs, gs = append(ws, w), append(as, a), append(bs, b), append(gs, g)
			w2, a2, b2, oks, has = append(w2, nw), append(a2, na), append(b2, nb), append(oks, ok), append(has, hg)
		}
		desc := fmt.Sprintf("%s, step %d", ru.desc, t)
		lastCase(desc)
		r.n++
		var err error
		pan := r.watchdog(ru.name, desc, func() {
			if whole {
				err = optimizers.New(nn.StreamParams(params), ru.strat).Optimize()
				return
			}
			for i, p := range params {
				if has[i] {
					if e := ru.strat.OptimizeParams(p); e != nil {
						err = e
					}
				}
			}
		})
		if pan != nil {
			r.fail("panic", ru.name, "%s: panics: %v", desc, pan)
			return
		}
		if err != nil {
			r.fail("value", ru.name, "%s: unexpected error %v", desc, err)
			return
		}
		for i, p := range params {
			in := fmt.Sprintf("%s: parameter %v, gradient %v (given: %v), state %v %v", desc, ws[i], gs[i], has[i], as[i], bs[i])
			if p.HasGrad() {
				r.fail("value", ru.name+".grad", "%s: the gradient is still there after the step", in)
			}
			if !has[i] {
				if !identical(toMx(p), mx{p.Shape()[0], p.Shape()[1], ws[i]}) {
					r.fail("frame", ru.name+".nograd", "%s: a parameter without gradient changed to %v", in, toMx(p).v)
				}
				continue
			}
			cmp := func(what string, got mat.Matrix, want []float64) {
				if got == nil || want == nil {
					return
				}
				if g := toMx(got); !eqMx(g, mx{p.Shape()[0], p.Shape()[1], want}, tol) {
					r.fail("value", ru.name, "%s: %s is %v, want %v", in, what, g.v, want)
				}
			}
			if oks[i] || !f32 {
				cmp("the new value", p, w2[i])
			}
			x, y := ru.state(p)
			cmp("the first state", x, a2[i])
			cmp("the second state", y, b2[i])
		}
	}
	// a state of another optimizer is refused and nothing changes
	if r.rnd.Intn(4) == 0 {
		p := params[0]
		before := toMx(p)
		p.State = &otherState{}
		p.AccGrad(build[T](r.mx(before.r, before.c)))
		var err error
		if pan := catch(func() { err = ru.strat.OptimizeParams(p) }); pan != nil {
			r.fail("panic", ru.name+".state", "%s: a foreign state panics: %v", ru.desc, pan)
		} else if err == nil {
			r.fail("value", ru.name+".state", "%s: a foreign state is not refused", ru.desc)
		} else if !identical(toMx(p), before) {
			r.fail("frame", ru.name+".state", "%s: the parameter changed although its state was refused", ru.desc)
		}
	}
}

func runOptim(t *testing.T, rounds int) {
	r := newRun(t, "C14")
	for i := 0; i < r.rounds(rounds); i++ {
		for ri := 0; ri < 7; ri++ {
			if r.rnd.Intn(2) == 0 {
				optimRun[float32](r, ri)
			} else {
				optimRun[float64](r, ri)
			}
		}
	}
	for _, f := range []func(b1, b2 float64){
		func(a, b float64) { adam.NewConfig(0.1, a, b, 1e-8) },
		func(a, b float64) { adam.NewAdamWConfig(0.1, a, b, 1e-8, 0.1) },
		func(a, b float64) { lamb.NewConfig(0.1, a, b, 1e-8, 0.1) },
		func(a, b float64) { radam.NewConfig(0.1, a, b, 1e-8) },
	} {
		for _, c := range []struct {
			a, b float64
			ok   bool
		}{{0, 0, true}, {0.9, 0.999, true}, {1, 0.9, false}, {0.9, 1, false}, {-0.1, 0.9, false}, {0.9, -0.1, false}} {
			if got := catch(func() { f(c.a, c.b) }) == nil; got != c.ok {
				r.fail("panic", "NewConfig", "betas %v, %v accepted: %v", c.a, c.b, got)
			}
		}
	}
	r.done("histories of optimization steps against the update rules")
}

func TestReplayC14(t *testing.T)  { runOptim(t, 150) }
func TestBoundedC14(t *testing.T) { runOptim(t, 60) }

// ---- C15: a step is complete ----

type testStrategy struct {
	mu     sync.Mutex
	calls  map[*nn.Param]int
	bad    map[*nn.Param]error
	delay  func() time.Duration
	active atomic.Int32
	over   atomic.Bool
	late   atomic.Int32
}

func (s *testStrategy) OptimizeParams(p *nn.Param) error {
	s.active.Add(1)
	defer s.active.Add(-1)
	if s.over.Load() {
		s.late.Add(1)
	}
	s.mu.Lock()
	s.calls[p]++
	d := s.delay()
	err := s.bad[p]
	s.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
	if err != nil {
		return err
	}
	p.SubInPlace(p.Grad().(mat.Matrix))
	p.ZeroGrad()
	return nil
}

func (r *run) complete() {
	sizes := []int{0, 1, 2, 3, 5, 17, 40, 100}
	n := sizes[r.rnd.Intn(len(sizes))]
	st := &testStrategy{calls: map[*nn.Param]int{}, bad: map[*nn.Param]error{}}
	mode := r.rnd.Intn(3)
	rnd := r.rnd
	st.delay = func() time.Duration {
		switch mode {
		case 0:
			return 0
		case 1:
			return time.Duration(rnd.Intn(3)) * time.Millisecond / 2
		}
		if rnd.Intn(10) == 0 {
			return 3 * time.Millisecond
		}
		return 0
	}
	var ps []*nn.Param
	var has []bool
	var before []mx
	nbad := 0
	badP := []float64{0, 0, 0.02, 0.2, 1}[r.rnd.Intn(5)]
	for i := 0; i < n; i++ {
		p := nn.NewParam(build[float64](r.mx(1, 2)))
		ps = append(ps, p)
		h := r.rnd.Intn(4) > 0
		if h {
			p.AccGrad(build[float64](r.mx(1, 2)))
		}
		has = append(has, h)
		before = append(before, toMx(p))
		if r.rnd.Float64() < badP {
			st.bad[p] = fmt.Errorf("parameter %d fails", i)
			if h {
				nbad++
			}
		}
	}
	desc := fmt.Sprintf("%d parameters, %d of the updates fail, delays %d", n, nbad, mode)
	lastCase("Optimize: " + desc)
	r.n++
	var err error
	if pan := r.watchdog("Optimize", desc, func() {
		err = optimizers.New(nn.StreamParams(ps), st).Optimize()
	}); pan != nil {
		r.fail("panic", "Optimize.panic", "Optimize with %s panics: %v", desc, pan)
		return
	}
	st.over.Store(true)
	if a := st.active.Load(); a != 0 {
		r.fail("value", "Optimize.running", "Optimize with %s returned while %d updates were running", desc, a)
	}
	time.Sleep(200 * time.Microsecond)
	if l := st.late.Load(); l != 0 {
		r.fail("value", "Optimize.late", "Optimize with %s: %d updates started after it returned", desc, l)
	}
	if nbad > 0 {
		if err == nil {
			r.fail("value", "Optimize.error", "Optimize with %s returned no error", desc)
			return
		}
		found := false
		for _, e := range st.bad {
			found = found || errors.Is(err, e)
		}
		if !found {
			r.fail("value", "Optimize.error", "Optimize with %s returned another error: %v", desc, err)
		}
	} else if err != nil {
		r.fail("value", "Optimize.error", "Optimize with %s returned the error %v", desc, err)
	}
	st.mu.Lock()
	defer st.mu.Unlock()
	for i, p := range ps {
		c := st.calls[p]
		switch {
		case c > 1:
			r.fail("value", "Optimize.twice", "Optimize with %s: parameter %d was updated %d times", desc, i, c)
		case !has[i] && c > 0:
			r.fail("frame", "Optimize.nograd", "Optimize with %s: parameter %d has no gradient but was updated", desc, i)
		case !has[i] && !identical(toMx(p), before[i]):
			r.fail("frame", "Optimize.nograd", "Optimize with %s: parameter %d has no gradient but changed", desc, i)
		case has[i] && nbad == 0 && (c != 1 || p.HasGrad()):
			r.fail("value", "Optimize.missed", "Optimize with %s: parameter %d was updated %d times, gradient left: %v", desc, i, c, p.HasGrad())
		}
	}
}

func runC15(t *testing.T, rounds int) {
	r := newRun(t, "C15")
	for i := 0; i < r.rounds(rounds); i++ {
		r.complete()
	}
	r.done("optimization steps with delayed and failing updates")
}

func TestReplayC15(t *testing.T)  { runC15(t, 600) }
func TestBoundedC15(t *testing.T) { runC15(t, 400) }

// ---- C16: clipping ----

func (r *run) clip() {
	n := r.rnd.Intn(6)
	var ps []*nn.Param
	var vals, grads []mx
	var has []bool
	f32s := false
	for i := 0; i < n; i++ {
		f32 := r.rnd.Intn(2) == 0
		a := r.mx(1+r.rnd.Intn(5), 1+r.rnd.Intn(4))
		p := nn.NewParam(buildAs(f32, a))
		h := r.rnd.Intn(4) > 0
		g := r.mx(a.r, a.c)
		if h {
			p.AccGrad(buildAs(f32, g))
			f32s = f32s || f32
		}
		ps, vals, grads, has = append(ps, p), append(vals, toMx(p)), append(grads, g), append(has, h)
	}
	tol := tolOf(f32s)
	in := func() string {
		s := ""
		for i := range ps {
			if has[i] {
				s += fmt.Sprintf(" %v", grads[i])
			} else {
				s += " none"
			}
		}
		return s
	}
	check := func(id, desc string, want func(x float64) float64) {
		for i, p := range ps {
			if !identical(toMx(p), vals[i]) {
				r.fail("frame", id+".value", "%s: the value of parameter %d changed", desc, i)
			}
			if p.HasGrad() != has[i] {
				r.fail("frame", id+".has", "%s: parameter %d: gradient present before: %v, after: %v", desc, i, has[i], p.HasGrad())
				continue
			}
			if has[i] {
				if got, w := toMx(p.Grad()), lift(grads[i], want); !eqMx(got, w, tol) {
					r.fail("value", id, "%s: gradient %d is %v, want %v", desc, i, got, w)
				}
			}
		}
	}
	r.n++
	if r.rnd.Intn(2) == 0 {
		v := anyOf[float64](r, 0, 0.1, 0.5, 1, 2, 100)
		desc := fmt.Sprintf("ValueClipper{%v} on gradients%s", v, in())
		lastCase(desc)
		c := &gradclipper.ValueClipper{Value: v}
		if pan := r.watchdog("ValueClipper", desc, func() { c.ClipGrads(nn.StreamParams(ps)) }); pan != nil {
			r.fail("panic", "ValueClipper", "%s panics: %v", desc, pan)
			return
		}
		check("ValueClipper", desc, func(x float64) float64 { return math.Max(-v, math.Min(v, x)) })
		return
	}
	nt := anyOf[float64](r, 2, 2, 1.5, 3, math.Inf(1))
	max := anyOf[float64](r, 0, 0.05, 0.5, 1, 3, 1000)
	c := &gradclipper.NormClipper{MaxNorm: max, NormType: nt}
	desc := fmt.Sprintf("NormClipper{%v, %v} on gradients%s", max, nt, in())
	lastCase(desc)
	if pan := r.watchdog("NormClipper", desc, func() { c.ClipGradients(nn.StreamParams(ps)) }); pan != nil {
		r.fail("panic", "NormClipper", "%s panics: %v", desc, pan)
		return
	}
	norm := 0.0
	for i := range ps {
		if !has[i] {
			continue
		}
		for _, x := range grads[i].v {
			if math.IsInf(nt, 1) {
				norm = math.Max(norm, math.Abs(x))
			} else {
				norm += math.Pow(math.Abs(x), nt)
			}
		}
	}
	if !math.IsInf(nt, 1) {
		norm = math.Pow(norm, 1/nt)
	}
	if math.Abs(norm-max) < 1e-4 {
		return
	}
	k := 1.0
	if norm > max {
		k = max / (norm + 1e-7)
	}
	check("NormClipper", desc, func(x float64) float64 { return k * x })
}

func runC16(t *testing.T, rounds int) {
	r := newRun(t, "C16")
	for i := 0; i < r.rounds(rounds); i++ {
		r.clip()
	}
	for _, nt := range []float64{1, 0.5, 0, -1, math.Inf(-1)} {
		c := &gradclipper.NormClipper{MaxNorm: 1, NormType: nt}
		if catch(func() { c.ClipGradients(nn.StreamParams(nil)) }) == nil {
			r.fail("panic", "NormClipper.type", "norm type %v is accepted", nt)
		}
	}
	r.done("sets of parameters with and without gradients")
}

func TestReplayC16(t *testing.T)  { runC16(t, 4000) }
func TestBoundedC16(t *testing.T) { runC16(t, 2000) }

// ---- C17: schedules ----

func runC17(t *testing.T, rounds int) {
	r := newRun(t, "C17")
	near12 := func(a, b float64) bool { return math.Abs(a-b) <= 1e-12*math.Max(1, math.Abs(b)) }
	for i := 0; i < r.rounds(rounds); i++ {
		r.n++
		init := r.rnd.Float64()*2 + 0.01
		final := init * anyOf[float64](r, 1, 0.5, 0.1, 0.001)
		times := 1 + r.rnd.Intn(40)
		desc := fmt.Sprintf("Exponential(%v, %v, %d)", init, final, times)
		lastCase(desc)
		if pan := catch(func() {
			d := exponential.New(init, final, times)
			lr := init
			for t := 1; t <= times+5; t++ {
				x := d.Decay(lr, t)
				want := lr
				if t > 1 && lr > final {
					want = final
					if t < times {
						want = math.Exp((float64(times-t)*math.Log(lr) + math.Log(final)) / float64(times-t+1))
					}
				}
				if !near12(x, want) {
					r.fail("value", "Exponential", "%s: the rate %v becomes %v at step %d, want %v", desc, lr, x, t, want)
				}
				if x > lr*(1+1e-12) || x < final*(1-1e-12) {
					r.fail("value", "Exponential.bounds", "%s: the rate %v becomes %v at step %d", desc, lr, x, t)
				}
				lr = x
			}
			if times > 1 && !near12(lr, final) {
				r.fail("value", "Exponential.final", "%s: the rate is %v after the last step", desc, lr)
			}
		}); pan != nil {
			r.fail("panic", "Exponential", "%s panics: %v", desc, pan)
		}
		rate := anyOf[float64](r, 0, 0.001, 0.1, 0.5, 2)
		final = init * anyOf[float64](r, 1, 0.5, 0.1, 0)
		desc = fmt.Sprintf("Hyperbolic(%v, %v, %v)", init, final, rate)
		lastCase(desc)
		if pan := catch(func() {
			d := hyperbolic.New(init, final, rate)
			lr := init
			for t := 1; t <= 60; t++ {
				x := d.Decay(lr, t)
				want := lr
				if t > 1 && rate > 0 && lr > final {
					want = math.Max(final, init/(1+rate*float64(t)))
				}
				if !near12(x, want) {
					r.fail("value", "Hyperbolic", "%s: the rate %v becomes %v at step %d, want %v", desc, lr, x, t, want)
				}
				if x > lr*(1+1e-12) || x < final*(1-1e-12) {
					r.fail("value", "Hyperbolic.bounds", "%s: the rate %v becomes %v at step %d", desc, lr, x, t)
				}
				lr = x
			}
		}); pan != nil {
			r.fail("panic", "Hyperbolic", "%s panics: %v", desc, pan)
		}
	}
	for i := 0; i < 50; i++ {
		r.n++
		init := r.rnd.Float64()*2 + 0.01
		rate := anyOf[float64](r, 1e-6, 1e-4, 0.01, 1)
		final := init * anyOf[float64](r, 0.5, 1e-3, 1e-9, 0)
		desc := fmt.Sprintf("Hyperbolic(%v, %v, %v)", init, final, rate)
		lastCase(desc)
		if pan := catch(func() {
			d := hyperbolic.New(init, final, rate)
			lr, t := init, 1
			for t < 1<<40 {
				t += 1 + r.rnd.Intn(t+1)
				x := d.Decay(lr, t)
				want := lr
				if lr > final {
					want = math.Max(final, init/(1+rate*float64(t)))
				}
				if !near12(x, want) || x > lr*(1+1e-12) {
					r.fail("value", "Hyperbolic", "%s: the rate %v becomes %v at step %d, want %v", desc, lr, x, t, want)
				}
				lr = x
			}
		}); pan != nil {
			r.fail("panic", "Hyperbolic", "%s panics: %v", desc, pan)
		}
		times := 1000 + r.rnd.Intn(1<<20)
		final = init * anyOf[float64](r, 0.5, 1e-3, 1e-9)
		desc = fmt.Sprintf("Exponential(%v, %v, %d)", init, final, times)
		if pan := catch(func() {
			d := exponential.New(init, final, times)
			lr := init
			for t := 2; t < times+5; t += 1 + r.rnd.Intn(t) {
				x := d.Decay(lr, t)
				want := lr
				if lr > final {
					want = final
					if t < times {
						want = math.Exp((float64(times-t)*math.Log(lr) + math.Log(final)) / float64(times-t+1))
					}
				}
				if !near12(x, want) || x > lr*(1+1e-12) {
					r.fail("value", "Exponential", "%s: the rate %v becomes %v at step %d, want %v", desc, lr, x, t, want)
				}
				lr = x
			}
		}); pan != nil {
			r.fail("panic", "Exponential", "%s panics: %v", desc, pan)
		}
	}
	if catch(func() { exponential.New(0.1, 0.2, 3) }) == nil {
		r.fail("panic", "Exponential.New", "a final rate above the initial one is accepted")
	}
	if catch(func() { hyperbolic.New(0.1, 0.2, 3) }) == nil {
		r.fail("panic", "Hyperbolic.New", "a final rate above the initial one is accepted")
	}
	r.done("schedules over whole training runs")
}

func TestReplayC17(t *testing.T)  { runC17(t, 2000) }
func TestBoundedC17(t *testing.T) { runC17(t, 500) }
