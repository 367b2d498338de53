// Package zzverif runs the real code of the module on concrete inputs: it
// replays failed proof obligations and checks the functions listed as bounded.
// The files are overlaid into the module by "gocv check".
package zzverif

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
)

const maxReports = 12

// run collects the failing inputs of one test.
type run struct {
	t     *testing.T
	rnd   *rand.Rand
	n     int
	fails int
	seen  map[string]int
	prop  string
	kinds map[string]bool
}

func newRun(t *testing.T, prop string, kinds ...string) *run {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := &run{t: t, rnd: rand.New(rand.NewSource(seed*7919 + 11)), seen: map[string]int{}, prop: prop}
	if len(kinds) > 0 {
		r.kinds = map[string]bool{}
		for _, k := range kinds {
			r.kinds[k] = true
		}
	}
	return r
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func (r *run) rounds(quick int) int {
	if thorough() {
		return quick * 12
	}
	return quick
}

func (r *run) wants(kind string) bool { return r.kinds == nil || r.kinds[kind] }

// fail reports a failing input; id names the case.
func (r *run) fail(kind, id, format string, args ...any) {
	if !r.wants(kind) {
		return
	}
	r.fails++
	r.seen[id]++
	if r.seen[id] > 1 || len(r.seen) > maxReports {
		return
	}
	s := strings.ReplaceAll(fmt.Sprintf(format, args...), "\n", " ")
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	fmt.Printf("FAILING-INPUT %s: %s\n", id, s)
}

func (r *run) done(what string) {
	fmt.Printf("COVERED %d cases, %s\n", r.n, what)
	if r.fails > 0 {
		r.t.Fail()
	}
}

// catch runs f and reports the panic value.
func catch(f func()) (p any) {
	defer func() {
		if e := recover(); e != nil {
			p = e
			if p == nil {
				p = "nil panic"
			}
		}
	}()
	f()
	return nil
}

// mx is the oracle's matrix: row-major elements.
type mx struct {
	r, c int
	v    []float64
}

func (a mx) at(i, j int) float64 { return a.v[i*a.c+j] }
func (a mx) vec() bool           { return a.r == 1 || a.c == 1 }
func (a mx) same(b mx) bool      { return a.r == b.r && a.c == b.c }
func (a mx) String() string      { return fmt.Sprintf("%dx%d%v", a.r, a.c, a.v) }

func newMx(r, c int, f func(i, j int) float64) mx {
	m := mx{r: r, c: c, v: make([]float64, r*c)}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			m.v[i*c+j] = f(i, j)
		}
	}
	return m
}

func lift(a mx, f func(x float64) float64) mx {
	return newMx(a.r, a.c, func(i, j int) float64 { return f(a.at(i, j)) })
}

func lift2(a, b mx, f func(x, y float64) float64) mx {
	m := mx{r: a.r, c: a.c, v: make([]float64, len(a.v))}
	for i := range a.v {
		m.v[i] = f(a.v[i], b.v[i])
	}
	return m
}

func tr(a mx) mx { return newMx(a.c, a.r, func(i, j int) float64 { return a.at(j, i) }) }

func col(xs ...float64) mx { return mx{r: len(xs), c: 1, v: xs} }

func toMx(m mat.Tensor) mx {
	s := m.Shape()
	d := m.Data().F64()
	return mx{r: s[0], c: s[1], v: append([]float64(nil), d...)}
}

// make a real matrix of element type T
func build[T float.DType](a mx, opts ...mat.OptionsFunc) mat.Matrix {
	d := make([]T, len(a.v))
	for i, x := range a.v {
		d[i] = T(x)
	}
	// spare capacity behind the data: reading it is out of range
	d = append(d, 91, 92, 93)[:len(a.v)]
	return mat.NewDense[T](append([]mat.OptionsFunc{mat.WithShape(a.r, a.c), mat.WithBacking(d)}, opts...)...)
}

func is32(m mat.Tensor) bool {
	_, ok := m.(*mat.Dense[float32])
	return ok
}

// close compares with a tolerance fit for the element type.
func near(x, y, tol float64) bool {
	if math.IsNaN(x) || math.IsNaN(y) {
		return math.IsNaN(x) == math.IsNaN(y)
	}
	if tol > 1e-6 && math.Abs(x) > 1e37 && math.Abs(y) > 1e37 {
		return x*y > 0 // out of the range of float32 on at least one side
	}
	if math.IsInf(x, 0) || math.IsInf(y, 0) {
		return x == y
	}
	s := math.Max(1, math.Max(math.Abs(x), math.Abs(y)))
	return math.Abs(x-y) <= tol*s
}

func tolOf(f32 bool) float64 {
	if f32 {
		return 2e-4
	}
	return 1e-8
}

func eqMx(a, b mx, tol float64) bool {
	if !a.same(b) || len(a.v) != len(b.v) {
		return false
	}
	for i := range a.v {
		if !near(a.v[i], b.v[i], tol) {
			return false
		}
	}
	return true
}

func identical(a, b mx) bool {
	if !a.same(b) || len(a.v) != len(b.v) {
		return false
	}
	for i := range a.v {
		if a.v[i] != b.v[i] && !(math.IsNaN(a.v[i]) && math.IsNaN(b.v[i])) {
			return false
		}
	}
	return true
}

// val draws an element: small numbers, with exact ties and zeros now and then.
func (r *run) val() float64 {
	switch r.rnd.Intn(8) {
	case 0:
		return 0
	case 1:
		return float64(r.rnd.Intn(5) - 2)
	}
	return math.Round((r.rnd.Float64()*4-2)*1024) / 1024
}

func (r *run) mx(rows, cols int) mx {
	scale := 1.0
	switch r.rnd.Intn(24) {
	case 0:
		scale = math.Ldexp(1, -18)
	case 1:
		scale = 8
	}
	return newMx(rows, cols, func(i, j int) float64 { return r.val() * scale })
}

func (r *run) pos(rows, cols int) mx {
	return newMx(rows, cols, func(i, j int) float64 { return math.Abs(r.val()) + 0.25 })
}

// dim draws a dimension; zero and one are frequent, large ones reach the
// unrolled kernels.
func (r *run) dim() int {
	switch r.rnd.Intn(10) {
	case 0:
		return 0
	case 1, 2:
		return 1
	case 3:
		return 5 + r.rnd.Intn(30)
	}
	return 1 + r.rnd.Intn(6)
}

func (r *run) vec() mx {
	n := r.dim()
	if r.rnd.Intn(2) == 0 {
		return r.mx(n, 1)
	}
	return r.mx(1, n)
}
