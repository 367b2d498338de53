package zzverif

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"testing"
	"unsafe"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/initializers"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	irand "github.com/nlpodyssey/spago/mat/internal/rand"
	"github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/mat/rand/bernulli"
	"github.com/nlpodyssey/spago/mat/rand/normal"
	"github.com/nlpodyssey/spago/mat/rand/uniform"
)

// Seeds whose first draws lie at the edges: the first Float64 rounds to 1 as a
// float32, is the largest float32 below 1, or is very small.
var edgeSeeds = []uint64{5529123, 26891332, 58935016, 184106508, 565982, 23252973, 1323158, 30568139, 17058887, 30053710}

// edgeSource mixes extreme values with arbitrary ones.
type edgeSource struct{ r *run }

func (s edgeSource) Seed(uint64) {}
func (s edgeSource) Uint64() uint64 {
	v := s.r.rnd.Uint64()
	switch s.r.rnd.Intn(8) {
	case 0:
		return 0
	case 1:
		return math.MaxUint64
	case 2:
		return 1<<53 - 1
	case 3:
		return 1<<53 - 1 - v%(1<<26)
	case 4:
		return v % 8
	}
	return v
}

// generator returns a generator: with an ordinary seed, an edge seed, or with
// a source of edge values (when its representation allows it).
func (r *run) generator() (*rand.LockedRand, string) {
	switch r.rnd.Intn(4) {
	case 0:
		s := edgeSeeds[r.rnd.Intn(len(edgeSeeds))]
		return rand.NewLockedRand(s), fmt.Sprintf("seed %d", s)
	case 1, 2:
		g := rand.NewLockedRand(1)
		v := reflect.ValueOf(g).Elem()
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.Type() == reflect.TypeOf((*irand.Rand)(nil)) {
				*(**irand.Rand)(unsafe.Pointer(f.UnsafeAddr())) = irand.New(edgeSource{r})
				return g, "edge draws"
			}
		}
	}
	s := r.rnd.Uint64()
	return rand.NewLockedRand(s), fmt.Sprintf("seed %d", s)
}

// seedGlobal seeds the generator of the functions without one.
func (r *run) seedGlobal() uint64 {
	s := r.rnd.Uint64()
	if r.rnd.Intn(2) == 0 {
		s = edgeSeeds[r.rnd.Intn(len(edgeSeeds))]
	}
	irand.Seed(s)
	return s
}

func sorted(xs []int) []int {
	ys := append([]int{}, xs...)
	sort.Ints(ys)
	return ys
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func randShuffle(r *run) {
	n := r.rnd.Intn(9)
	base := make([]int, n+3)
	for i := range base {
		base[i] = r.rnd.Intn(7) - 3
	}
	xs := base[1 : 1+n : 1+n]
	before := append([]int{}, base...)
	g, desc := r.generator()
	if r.rnd.Intn(2) == 0 {
		g, desc = nil, fmt.Sprintf("global seed %d", r.seedGlobal())
	}
	var ys []int
	if p := catch(func() { ys = rand.ShuffleInPlace(xs, g) }); p != nil {
		r.fail("rand", "rand.ShuffleInPlace", "%s: %v panics: %v", desc, before[1:1+n], p)
		return
	}
	if !sameInts(sorted(xs), sorted(before[1:1+n])) || base[0] != before[0] || !sameInts(base[1+n:], before[1+n:]) {
		r.fail("rand", "rand.ShuffleInPlace", "%s: %v became %v", desc, before, base)
	}
	if len(ys) != n || n > 0 && &ys[0] != &xs[0] {
		r.fail("rand", "rand.ShuffleInPlace", "%s: the result %v is not the shuffled slice %v", desc, ys, xs)
	}
}

// randShuffleCovers checks that every order is reached.
func randShuffleCovers(r *run) {
	for _, global := range []bool{false, true} {
		seen := map[[3]int]bool{}
		irand.Seed(3)
		g := rand.NewLockedRand(4)
		if global {
			g = nil
		}
		for i := 0; i < 400; i++ {
			xs := []int{1, 2, 3}
			rand.ShuffleInPlace(xs, g)
			seen[[3]int{xs[0], xs[1], xs[2]}] = true
		}
		if len(seen) != 6 {
			r.fail("rand", "rand.ShuffleInPlace", "400 shuffles of [1 2 3] (global generator %v) gave %d of 6 orders", global, len(seen))
		}
	}
}

func randWeighted[T float.DType](r *run) {
	n := 1 + r.rnd.Intn(6)
	ws := make([]T, n)
	var positive bool
	kind := r.rnd.Intn(5)
	for i := range ws {
		switch {
		case r.rnd.Intn(3) == 0:
		case kind == 0:
			ws[i] = 0.1
		case kind == 1:
			ws[i] = T(1) / 3
		default:
			ws[i] = T(r.rnd.Float64())
		}
		positive = positive || ws[i] > 0
	}
	if !positive {
		ws[r.rnd.Intn(n)] = 1
	}
	if kind != 2 {
		var sum float64
		for _, w := range ws {
			sum += float64(w)
		}
		for i := range ws {
			ws[i] = T(float64(ws[i]) / sum)
		}
	}
	if kind == 3 && r.rnd.Intn(3) == 0 {
		// Ten rounded tenths and a weight of zero.
		ws = make([]T, 11)
		for i := 0; i < 10; i++ {
			ws[i] = 0.1
		}
	}
	s := r.seedGlobal()
	got := -1
	if p := catch(func() { got = rand.WeightedChoice(ws) }); p != nil || got < 0 || got >= len(ws) || ws[got] <= 0 {
		r.fail("rand", "rand.WeightedChoice", "global seed %d: choice %d of %T %v (panic %v)", s, got, ws, ws, p)
	}
}

func randWeightedFrequencies[T float.DType](r *run) {
	ws := []T{0.1, 0, 0.5, 0.4}
	irand.Seed(7)
	cnt := make([]int, len(ws))
	for i := 0; i < 2000; i++ {
		cnt[rand.WeightedChoice(ws)]++
	}
	for i, c := range cnt {
		if math.Abs(float64(c)/2000-float64(ws[i])) > 0.06 {
			r.fail("rand", "rand.WeightedChoice", "2000 choices of %T %v gave %v", ws, ws, cnt)
			return
		}
	}
}

func randUnique(r *run) {
	s := r.seedGlobal()
	max := 1 + r.rnd.Intn(6)
	refuse := -1
	if r.rnd.Intn(2) == 0 {
		refuse = r.rnd.Intn(max)
	}
	n := r.rnd.Intn(max + 1)
	if refuse >= 0 && n == max {
		n--
	}
	valid := func(x int) bool { return x != refuse }
	var got []int
	desc := fmt.Sprintf("global seed %d: GetUniqueRandomInt(%d, %d, not %d)", s, n, max, refuse)
	r.watchdog("rand.GetUniqueRandomInt", desc, func() {
		got = rand.GetUniqueRandomInt(n, max, valid)
		seen := map[int]bool{}
		for _, x := range got {
			if x < 0 || x >= max || x == refuse || seen[x] {
				r.fail("rand", "rand.GetUniqueRandomInt", "%s = %v", desc, got)
				return
			}
			seen[x] = true
		}
		if len(got) != n {
			r.fail("rand", "rand.GetUniqueRandomInt", "%s = %v", desc, got)
		}
	})
	indices := make([]int, max)
	for i := range indices {
		indices[i] = 10*i + r.rnd.Intn(10) - 5
		if i == 0 && r.rnd.Intn(2) == 0 {
			indices[i] = 0
		}
	}
	before := append([]int{}, indices...)
	bad := math.MinInt
	if refuse >= 0 {
		bad = indices[refuse]
	}
	desc = fmt.Sprintf("global seed %d: GetUniqueRandomIndices(%d, %v, not %d)", s, n, before, bad)
	r.watchdog("rand.GetUniqueRandomIndices", desc, func() {
		got := rand.GetUniqueRandomIndices(n, indices, func(x int) bool { return x != bad })
		seen := map[int]bool{}
		in := map[int]bool{}
		for _, x := range before {
			in[x] = true
		}
		ok := len(got) == n && sameInts(sorted(before), sorted(indices))
		for _, x := range got {
			ok = ok && in[x] && x != bad && !seen[x]
			seen[x] = true
		}
		if !ok {
			r.fail("rand", "rand.GetUniqueRandomIndices", "%s = %v", desc, got)
		}
	})
}

func (r *run) interval() (min, max float64) {
	min = float64(r.rnd.Intn(9)-4) / 2
	max = min + float64(r.rnd.Intn(5))/2
	if r.rnd.Intn(3) == 0 {
		min, max = r.rnd.NormFloat64(), r.rnd.NormFloat64()
		if min > max {
			min, max = max, min
		}
	}
	return
}

func randUniform(r *run) {
	min, max := r.interval()
	g, desc := r.generator()
	u := uniform.New(min, max, g)
	if u.Min != min || u.Max != max {
		r.fail("rand", "uniform.New", "New(%g, %g) holds the interval [%g, %g]", min, max, u.Min, u.Max)
	}
	var lo, hi = math.Inf(1), math.Inf(-1)
	for i := 0; i < 64; i++ {
		x := u.Next()
		lo, hi = math.Min(lo, x), math.Max(hi, x)
		// One unit in the last place for the rounding of the product.
		if !(x >= min && x <= math.Nextafter(max, math.Inf(1))) {
			r.fail("rand", "uniform.Next", "%s: draw %d of [%g, %g] is %g", desc, i, min, max, x)
			return
		}
	}
	if lo > min+(max-min)*0.4 || hi < min+(max-min)*0.6 {
		r.fail("rand", "uniform.Next", "%s: 64 draws of [%g, %g] stay inside [%g, %g]", desc, min, max, lo, hi)
	}
}

func randBernulli[T float.DType](r *run) {
	rows, cols := r.rnd.Intn(4), r.rnd.Intn(4)
	if r.rnd.Intn(4) == 0 {
		rows, cols = 12, 12
	}
	prob := T(r.rnd.Float64())
	switch r.rnd.Intn(4) {
	case 0:
		prob = 0
	case 1:
		prob = 1
	}
	g, desc := r.generator()
	edge := desc == "edge draws"
	desc = fmt.Sprintf("%s: bernulli.Distribution[%T](%d, %d, %g)", desc, prob, rows, cols, prob)
	var m mat.Matrix
	if p := catch(func() { m = bernulli.Distribution(rows, cols, prob, g) }); p != nil {
		r.fail("rand", "bernulli.Distribution", "%s panics: %v", desc, p)
		return
	}
	got := toMx(m)
	if got.r != rows || got.c != cols || is32(m) != (any(prob) == any(float32(prob))) {
		r.fail("rand", "bernulli.Distribution", "%s is %v", desc, got)
		return
	}
	ones := 0
	for _, x := range got.v {
		if x != 0 && x != 1 || prob == 0 && x != 1 || prob == 1 && x != 0 {
			r.fail("rand", "bernulli.Distribution", "%s contains %g", desc, x)
			return
		}
		if x == 1 {
			ones++
		}
	}
	if n := float64(len(got.v)); n > 100 && !edge && math.Abs(float64(ones)-n*(1-float64(prob))) > 40 {
		r.fail("rand", "bernulli.Distribution", "%s has %d ones", desc, ones)
	}
}

// randOp is one draw from a generator.
func (r *run) randOp() (string, func(*rand.LockedRand) any) {
	n := 1 + r.rnd.Intn(20)
	switch r.rnd.Intn(16) {
	case 0:
		return "TwoInt63", func(g *rand.LockedRand) any { a, b := g.TwoInt63(); return [2]int64{a, b} }
	case 1:
		return "Int63", func(g *rand.LockedRand) any { return g.Int63() }
	case 2:
		return "Uint32", func(g *rand.LockedRand) any { return g.Uint32() }
	case 3:
		return "Uint64", func(g *rand.LockedRand) any { return g.Uint64() }
	case 4:
		return fmt.Sprintf("Uint64n(%d)", n), func(g *rand.LockedRand) any { return inRange(g.Uint64n(uint64(n)) < uint64(n)) }
	case 5:
		return "Int31", func(g *rand.LockedRand) any { return g.Int31() }
	case 6:
		return "Int", func(g *rand.LockedRand) any { return g.Int() }
	case 7:
		return fmt.Sprintf("Int63n(%d)", n), func(g *rand.LockedRand) any {
			x := g.Int63n(int64(n))
			return [2]any{x, inRange(x >= 0 && x < int64(n))}
		}
	case 8:
		return fmt.Sprintf("Int31n(%d)", n), func(g *rand.LockedRand) any {
			x := g.Int31n(int32(n))
			return [2]any{x, inRange(x >= 0 && x < int32(n))}
		}
	case 9:
		return fmt.Sprintf("Intn(%d)", n), func(g *rand.LockedRand) any {
			x := g.Intn(n)
			return [2]any{x, inRange(x >= 0 && x < n)}
		}
	case 10:
		return "NormFloat64", func(g *rand.LockedRand) any { return g.NormFloat64() }
	case 11:
		return "Float32", func(g *rand.LockedRand) any { x := g.Float32(); return [2]any{x, inRange(x >= 0 && x < 1)} }
	case 12:
		return "Float64", func(g *rand.LockedRand) any { x := g.Float64(); return [2]any{x, inRange(x >= 0 && x < 1)} }
	case 13:
		return fmt.Sprintf("Perm(%d)", n), func(g *rand.LockedRand) any {
			p := g.Perm(n)
			q := sorted(p)
			ok := len(q) == n
			for i, x := range q {
				ok = ok && x == i
			}
			return [2]any{fmt.Sprint(p), inRange(ok)}
		}
	case 14:
		return fmt.Sprintf("Read(%d bytes)", n), func(g *rand.LockedRand) any {
			p := make([]byte, n)
			k, err := g.Read(p)
			return [2]any{fmt.Sprint(p), inRange(k == n && err == nil)}
		}
	}
	return fmt.Sprintf("Shuffle(%d)", n), func(g *rand.LockedRand) any {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		g.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
		q := sorted(p)
		ok := true
		for i, x := range q {
			ok = ok && x == i
		}
		return [2]any{fmt.Sprint(p), inRange(ok)}
	}
}

type inRange bool

func outside(x any) bool {
	if b, ok := x.(inRange); ok {
		return !bool(b)
	}
	if a, ok := x.([2]any); ok {
		return outside(a[1])
	}
	return false
}

// randSequences: equal seeds give equal sequences, whatever was drawn before.
func randSequences(r *run) {
	seed := r.rnd.Uint64()
	if r.rnd.Intn(3) == 0 {
		seed = edgeSeeds[r.rnd.Intn(len(edgeSeeds))]
	}
	a, b := rand.NewLockedRand(seed), rand.NewLockedRand(r.rnd.Uint64())
	if r.rnd.Intn(4) == 0 {
		b = ag.Rand()
	}
	hist := ""
	for i := r.rnd.Intn(5); i > 0; i-- {
		name, op := r.randOp()
		hist += name + " "
		op(b)
	}
	if b == ag.Rand() {
		if g := ag.ManualSeed(seed); g != b {
			r.fail("rand", "ag.ManualSeed", "returns another generator than ag.Rand")
		}
	} else {
		b.Seed(seed)
	}
	hist += fmt.Sprintf("Seed(%d) ", seed)
	for i := 0; i < 12; i++ {
		name, op := r.randOp()
		hist += name + " "
		x, y := op(a), op(b)
		if x != y {
			r.fail("rand", "LockedRand", "history %s: %v; a new generator with the same seed: %v", hist, y, x)
			return
		}
		if outside(x) {
			r.fail("rand", "LockedRand", "history %s: %v", hist, x)
			return
		}
	}
	// Draws with edge values stay in their ranges.
	g, desc := r.generator()
	for i := 0; i < 12; i++ {
		name, op := r.randOp()
		if x := op(g); outside(x) {
			r.fail("rand", "LockedRand", "%s: %s = %v", desc, name, x)
			return
		}
	}
}

// randConcurrent: concurrent draws are those of the sequence, each once.
func randConcurrent(r *run) {
	const workers, each = 8, 300
	seed := r.rnd.Uint64()
	g, ref := rand.NewLockedRand(seed), rand.NewLockedRand(seed)
	pos := map[int64]int{}
	for i := 0; i < 2*workers*each; i++ {
		pos[ref.Int63()] = i
	}
	out := make([][][2]int64, workers)
	var wg sync.WaitGroup
	for w := range out {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				x, y := g.TwoInt63()
				out[w] = append(out[w], [2]int64{x, y})
				if i%16 == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	wg.Wait()
	seen := map[int64]bool{}
	for _, o := range out {
		for _, d := range o {
			i, ok := pos[d[0]]
			j, ok2 := pos[d[1]]
			if !ok || !ok2 || j != i+1 || seen[d[0]] {
				r.fail("rand", "LockedRand.TwoInt63", "seed %d: concurrent draws are not those of the sequence", seed)
				return
			}
			seen[d[0]] = true
		}
	}
}

func randInit(r *run) {
	f32 := r.rnd.Intn(2) == 0
	rows, cols := r.rnd.Intn(5), 1+r.rnd.Intn(4)
	fresh := func() mat.Matrix { return buildAs(f32, r.mx(rows, cols)) }
	tol := 0.0
	if f32 {
		tol = 1e-6
	}
	min, max := r.interval()
	gain := []float64{1, 0.5, 2, initializers.Gain(3)}[r.rnd.Intn(4)]
	xav := gain * math.Sqrt(6/float64(rows+cols))
	seed := r.rnd.Uint64()
	type tc struct {
		name string
		f    func(m mat.Matrix, g *rand.LockedRand) mat.Matrix
		ok   func(x float64) bool
	}
	in := func(lo, hi float64) func(float64) bool {
		return func(x float64) bool {
			s := tol*(1+math.Abs(lo)+math.Abs(hi)) + 1e-15*(math.Abs(lo)+math.Abs(hi))
			return x >= lo-s && x <= hi+s
		}
	}
	is := func(v ...float64) func(float64) bool {
		return func(x float64) bool {
			for _, y := range v {
				if math.Abs(x-y) <= tol*(1+math.Abs(y)) {
					return true
				}
			}
			return false
		}
	}
	fin := func(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }
	c := r.val()
	for _, k := range []tc{
		{"Uniform", func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Uniform(m, min, max, g) }, in(min, max)},
		{"XavierUniform", func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.XavierUniform(m, gain, g) }, in(-xav, xav)},
		{"Normal", func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Normal(m, min, max-min, g) }, fin},
		{"XavierNormal", func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.XavierNormal(m, gain, g) }, fin},
		{"Achlioptas", initializers.Achlioptas, is(0, math.Sqrt(3), -math.Sqrt(3))},
		{"Constant", func(m mat.Matrix, _ *rand.LockedRand) mat.Matrix { return initializers.Constant(m, c) }, is(c)},
		{"Ones", func(m mat.Matrix, _ *rand.LockedRand) mat.Matrix { return initializers.Ones(m) }, is(1)},
		{"Zeros", func(m mat.Matrix, _ *rand.LockedRand) mat.Matrix { return initializers.Zeros(m) }, is(0)},
	} {
		m, m2 := fresh(), fresh()
		desc := fmt.Sprintf("initializers.%s(%dx%d, float32 %v, seed %d, [%g, %g], gain %g, constant %g)", k.name, rows, cols, f32, seed, min, max, gain, c)
		var res mat.Matrix
		if p := catch(func() { res = k.f(m, rand.NewLockedRand(seed)); k.f(m2, rand.NewLockedRand(seed)) }); p != nil {
			r.fail("rand", "initializers."+k.name, "%s panics: %v", desc, p)
			continue
		}
		got := toMx(m)
		if res != m {
			r.fail("rand", "initializers."+k.name, "%s does not return its argument", desc)
		}
		if !identical(got, toMx(m2)) {
			r.fail("rand", "initializers."+k.name, "%s: %v and %v with equal seeds", desc, got, toMx(m2))
		}
		for _, x := range got.v {
			if !k.ok(x) {
				r.fail("rand", "initializers."+k.name, "%s contains %g", desc, x)
				break
			}
		}
		// Edge draws.
		g, gd := r.generator()
		m = fresh()
		if p := catch(func() { k.f(m, g) }); p != nil {
			r.fail("rand", "initializers."+k.name, "%s, %s panics: %v", desc, gd, p)
			continue
		}
		for _, x := range toMx(m).v {
			if !k.ok(x) {
				r.fail("rand", "initializers."+k.name, "%s, %s contains %g", desc, gd, x)
				break
			}
		}
	}
}

// randMoments compares the first moments with those of the distributions.
func randMoments(r *run) {
	const n = 4000
	mean := func(next func() float64) (m, s float64) {
		for i := 0; i < n; i++ {
			x := next()
			m += x
			s += x * x
		}
		m /= n
		return m, math.Sqrt(s/n - m*m)
	}
	nd := normal.New(2, -3, rand.NewLockedRand(5))
	if m, s := mean(nd.Next); math.Abs(m+3) > 0.2 || math.Abs(s-2) > 0.2 {
		r.fail("rand", "normal.Next", "mean %g and deviation %g instead of -3 and 2", m, s)
	}
	ud := uniform.New(-1, 3, rand.NewLockedRand(5))
	if m, s := mean(ud.Next); math.Abs(m-1) > 0.1 || math.Abs(s-4/math.Sqrt(12)) > 0.1 {
		r.fail("rand", "uniform.Next", "mean %g and deviation %g instead of 1 and %g", m, s, 4/math.Sqrt(12))
	}
	for _, d := range []struct {
		name string
		f    func(m mat.Matrix, g *rand.LockedRand) mat.Matrix
		m, s float64
	}{
		{"Uniform", func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Uniform(m, -1, 3, g) }, 1, 4 / math.Sqrt(12)},
		{"Normal", func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Normal(m, -3, 2, g) }, -3, 2},
		{"XavierUniform", func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.XavierUniform(m, 2, g) }, 0, 2 * math.Sqrt(2.0/120)},
		{"XavierNormal", func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.XavierNormal(m, 2, g) }, 0, 2 * math.Sqrt(2.0/120)},
		{"Achlioptas", initializers.Achlioptas, 0, 1},
	} {
		a := toMx(d.f(mat.NewDense[float64](mat.WithShape(40, 80)), rand.NewLockedRand(9)))
		var m, s float64
		for _, x := range a.v {
			m += x
			s += x * x
		}
		m /= float64(len(a.v))
		s = math.Sqrt(s/float64(len(a.v)) - m*m)
		if math.Abs(m-d.m) > 0.12*d.s || math.Abs(s-d.s) > 0.12*d.s {
			r.fail("rand", "initializers."+d.name, "40x80 matrix: mean %g and deviation %g instead of %g and %g", m, s, d.m, d.s)
		}
	}
}

func TestBoundedC27(t *testing.T) {
	r := newRun(t, "C27")
	defer irand.Seed(1)
	// Draws at the edges.
	for _, s := range edgeSeeds {
		for _, prob := range []float32{0, 0.25, 0.5, 0.99999994, 1} {
			for _, x := range toMx(bernulli.Distribution[float32](1, 3, prob, rand.NewLockedRand(s))).v {
				if x != 0 && x != 1 {
					r.fail("rand", "bernulli.Distribution", "seed %d: bernulli.Distribution[float32](1, 3, %g) contains %g", s, prob, x)
				}
			}
			r.n++
		}
		ws := make([]float32, 11)
		for i := 0; i < 10; i++ {
			ws[i] = 0.1
		}
		for _, w := range [][]float32{ws, append([]float32{0}, ws...), {0.7, 0.2, 0.1, 0}, {0, 0.3, 0.7}} {
			irand.Seed(s)
			if k := rand.WeightedChoice(w); w[k] <= 0 {
				r.fail("rand", "rand.WeightedChoice", "global seed %d: choice %d of %v", s, k, w)
			}
			r.n++
		}
	}
	randShuffleCovers(r)
	randWeightedFrequencies[float32](r)
	randWeightedFrequencies[float64](r)
	randMoments(r)
	for i := 0; i < r.rounds(20); i++ {
		randConcurrent(r)
		r.n++
	}
	for i := 0; i < r.rounds(1500); i++ {
		randShuffle(r)
		randWeighted[float32](r)
		randWeighted[float64](r)
		randUnique(r)
		randUniform(r)
		randBernulli[float32](r)
		randBernulli[float64](r)
		randSequences(r)
		randInit(r)
		r.n += 9
	}
	r.done("draws of generators with ordinary seeds, edge seeds and injected edge values")
}
