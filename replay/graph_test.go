package zzverif

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
)

// graphCase: real code that builds a graph over leaf tensors, with an oracle
// computing the values of the outputs from the values of the leaves.
type graphCase struct {
	name string
	desc string
	in   []mx                               // values of the leaves
	run  func(xs []mat.Tensor) []mat.Tensor // the real code
	want func(in []mx) []mx                 // the oracle
	keep func(in []mx, f32 bool) bool       // whether the case is usable in this precision (nil: always)
	tol  float64                            // extra tolerance factor (0: 1)
	no   func(k int) bool                   // leaves whose gradient is not checked
}

// lastCase notes the case for a crash report.
func lastCase(s string) {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		_ = os.WriteFile(filepath.Join(d, "lastcase"), []byte(s), 0o644)
	}
}

// watchdog ends the process with a report when f does not return.
func (r *run) watchdog(id, desc string, f func()) any {
	done := make(chan any, 1)
	go func() { done <- catch(f) }()
	select {
	case p := <-done:
		return p
	case <-time.After(25 * time.Second):
		r.fail("hang", id, "%s: did not return within 25 s", desc)
		fmt.Printf("COVERED %d cases before the hang\n", r.n)
		os.Exit(1)
	}
	return nil
}

func cloneMx(xs []mx) []mx {
	out := make([]mx, len(xs))
	for i, x := range xs {
		out[i] = mx{r: x.r, c: x.c, v: append([]float64(nil), x.v...)}
	}
	return out
}

func mxList(xs []mx) string {
	var b strings.Builder
	for _, x := range xs {
		fmt.Fprintf(&b, " %v", x)
	}
	return b.String()
}

// runGraph checks outputs, gradients and operands of one case.
func (r *run) runGraph(c graphCase, f32 bool) {
	if c.keep != nil && !c.keep(c.in, f32) {
		return
	}
	// the elements as the precision holds them
	in := cloneMx(c.in)
	for i := range in {
		in[i] = toMx(buildAs(f32, in[i]))
	}
	// one tensor in several places
	alias := make([]int, len(in))
	shared := ""
	for i := range alias {
		alias[i] = i
	}
	ties := c.name == "ag.Max" || c.name == "ag.Min" || c.name == "ag.Maximum" || c.name == "ag.Minimum"
	if len(in) > 1 && !ties && r.rnd.Intn(4) == 0 {
		for n := 1 + r.rnd.Intn(2); n > 0; n-- {
			j := 1 + r.rnd.Intn(len(in)-1)
			i := r.rnd.Intn(j)
			if r.rnd.Intn(2) == 0 {
				i = j - 1
			}
			if i = alias[i]; alias[j] != j || !in[i].same(in[j]) || c.no != nil && (c.no(i) || c.no(j)) {
				continue
			}
			old := in[j]
			in[j] = in[i]
			if c.keep != nil && !c.keep(in, f32) {
				in[j] = old
				continue
			}
			for k := range alias {
				if alias[k] == j {
					alias[k], in[k] = i, in[i]
				}
			}
			shared += fmt.Sprintf(" leaf %d is leaf %d", j, i)
		}
	}
	desc := fmt.Sprintf("%s %s float32=%v leaves%s%s", c.name, c.desc, f32, mxList(in), shared)
	lastCase(desc)
	r.n++
	tol := tolOf(f32)
	if f32 {
		tol *= 5
	}
	if c.tol != 0 {
		tol *= c.tol
	}
	req := make([]bool, len(in))
	leaves := make([]mat.Tensor, len(in))
	allReq := r.rnd.Intn(3) != 0
	for i := range in {
		if a := alias[i]; a != i {
			leaves[i], req[i] = leaves[a], req[a]
			continue
		}
		m := buildAs(f32, in[i])
		req[i] = allReq || r.rnd.Intn(2) == 0
		switch {
		case !req[i]:
			leaves[i] = m
		case r.rnd.Intn(2) == 0:
			leaves[i] = nn.NewParam(m)
		default:
			m.SetRequiresGrad(true)
			leaves[i] = m
		}
	}
	ag.SetForceSyncExecution(r.rnd.Intn(2) == 0)
	want := c.want(in)
	var outs []mat.Tensor
	var got []mx
	p := r.watchdog(c.name, desc, func() {
		outs = c.run(leaves)
		for _, o := range outs {
			got = append(got, toMx(o.Value()))
		}
	})
	if p != nil {
		r.fail("forward", c.name, "%s: panics: %v", desc, p)
		return
	}
	if len(got) != len(want) {
		r.fail("forward", c.name, "%s: %d outputs, want %d", desc, len(got), len(want))
		return
	}
	for i := range got {
		if !eqMx(got[i], want[i], tol) {
			r.fail("forward", c.name, "%s: output %d is %v, want %v", desc, i, got[i], want[i])
			return
		}
	}
	for i := range in {
		if !identical(toMx(leaves[i].Value()), in[i]) {
			r.fail("operands", c.name, "%s: leaf %d changed to %v", desc, i, toMx(leaves[i].Value()))
			return
		}
	}
	// gradients
	gys := make([]mx, len(outs))
	use := make([]bool, len(outs))
	var roots []mat.Tensor
	for i, o := range outs {
		gys[i] = newMx(want[i].r, want[i].c, func(int, int) float64 { return 0 })
		if !o.RequiresGrad() {
			continue
		}
		if len(outs) > 1 && r.rnd.Intn(4) == 0 {
			continue // no gradient for this output
		}
		use[i] = true
		gys[i] = toMx(buildAs(f32, r.mx(want[i].r, want[i].c)))
		roots = append(roots, o)
	}
	if len(roots) == 0 {
		return
	}
	var err error
	p = r.watchdog(c.name, desc+" backward", func() {
		for i, o := range outs {
			if use[i] {
				o.AccGrad(buildAs(f32, gys[i]))
			}
		}
		err = ag.Backward(roots...)
	})
	if p != nil || err != nil {
		r.fail("backward", c.name, "%s gradients%s: Backward fails: %v %v", desc, mxList(gys), p, err)
		return
	}
	dot := func() float64 {
		s := 0.0
		for i, y := range c.want(in) {
			for k := range y.v {
				s += y.v[k] * gys[i].v[k]
			}
		}
		return s
	}
	gtol := 2e-5
	if f32 {
		gtol = 1e-2
	}
	if c.tol != 0 {
		gtol *= c.tol
	}
	base := dot()
	if math.IsNaN(base) || math.IsInf(base, 0) {
		return
	}
	for k := range in {
		if alias[k] != k {
			continue
		}
		if !req[k] {
			if leaves[k].HasGrad() {
				r.fail("backward", c.name, "%s: leaf %d does not require gradients but has one", desc, k)
			}
			continue
		}
		if c.no != nil && c.no(k) {
			continue
		}
		g := leaves[k].Grad()
		var gv mx
		if isNilGrad(g) {
			gv = newMx(in[k].r, in[k].c, func(int, int) float64 { return 0 })
		} else {
			gv = toMx(g)
		}
		if !gv.same(in[k]) && !(gv.vec() && in[k].vec() && len(gv.v) == len(in[k].v)) {
			r.fail("backward", c.name, "%s: leaf %d has a gradient of %dx%d", desc, k, gv.r, gv.c)
			return
		}
		idx := r.rnd.Perm(len(in[k].v))
		if len(idx) > 12 {
			idx = idx[:12]
		}
		for _, i := range idx {
			x := in[k].v[i]
			h := 1e-5 * math.Max(1, math.Abs(x))
			at := func(d float64) float64 { in[k].v[i] = x + d; return dot() }
			p1, m1 := at(h), at(-h)
			p2, m2 := at(2*h), at(-2*h)
			in[k].v[i] = x
			d1, d2 := (p1-m1)/(2*h), (p2-m2)/(4*h)
			sl, sr := (p1-base)/h, (base-m1)/h
			sc := math.Max(1, math.Abs(d1))
			if math.IsNaN(d1) || math.Abs(d1-d2) > 1e-4*sc || math.Abs(sl-sr) > 1e-3*sc {
				continue // not differentiable here, as far as differences can tell
			}
			noise := 20*math.Abs(d1-d2) + 1e-14*math.Abs(base)/h
			if noise > 1e-2*sc {
				continue
			}
			if !near(gv.v[i], d1, gtol) && math.Abs(gv.v[i]-d1) > gtol*sc+noise {
				r.fail("backward", c.name, "%s output gradients%s: the gradient of leaf %d element %d is %v, want %v", desc, mxList(gys), k, i, gv.v[i], d1)
				return
			}
		}
	}
}

type graphGen struct {
	name string
	gen  func(r *run) graphCase
}

func runGraphs(t *testing.T, prop string, gens []graphGen, rounds int) {
	r := newRun(t, prop)
	defer ag.SetForceSyncExecution(false)
	for _, g := range gens {
		for i := 0; i < r.rounds(rounds); i++ {
			c := g.gen(r)
			c.name = g.name
			r.runGraph(c, i%3 == 2)
		}
	}
	r.done(fmt.Sprintf("%d constructions, values and gradients against an oracle over the reals, both precisions, sampled inputs (bounded)", len(gens)))
}
