import sys; sys.path.insert(0,'/verif/tools')
from seednew import mk
M='github.com/nlpodyssey/spago/mat'
mk('S01','C04',[('mat/dense.go','''			asm64.AxpyUnitaryTo(outData, otherVal, dData[from:to], outData)
			from = to
		}
		return out
	default:''','''			if otherVal != 0 {
				asm64.AxpyUnitaryTo(outData, otherVal, dData[from:to], outData)
				from = to
			}
		}
		return out
	default:''')],'a float64 MulT whose vector operand contains an exact zero before its last element','MulT skips the matrix row together with the zero multiplier, so later rows are paired with the wrong vector elements','''	a := mat.NewDense[float64](mat.WithShape(3, 2), mat.WithBacking([]float64{1, 2, 3, 4, 5, 6}))
	b := mat.NewDense[float64](mat.WithBacking([]float64{1, 0, 2}))
	c := a.MulT(b).Data().F64()
	if c[0] != 11 || c[1] != 14 {
		t.Fatal(c)
	}''',[M])
mk('S02','C02',[('mat/dense.go','return NewDense[T](WithBacking(copySlice(d.data[start:end])))','return NewDense[T](WithBacking(d.data[start:end]))')],
'writing to a vector obtained with Range (or to its source) afterwards','Range returns a vector sharing storage with its source','''	a := mat.NewDense[float64](mat.WithBacking([]float64{1, 2, 3, 4}))
	b := a.Range(1, 3)
	b.AddScalarInPlace(5)
	if a.Data().F64()[1] != 2 {
		t.Fatal(a.Data())
	}''',[M])
mk('S03','C07',[('mat/dense.go','''func (d *Dense[T]) Copy(other Matrix) {
	if !SameDims(d, other) {''','''func (d *Dense[T]) Copy(other Matrix) {
	if d.Size() != other.Size() {''')],'copying between matrices of equal size but different dimensions (2x3 and 3x2)','Copy silently accepts operands of different dimensions','''	a := mat.NewDense[float64](mat.WithShape(2, 3))
	b := mat.NewDense[float64](mat.WithShape(3, 2))
	defer func() {
		if recover() == nil {
			t.Fatal("no panic")
		}
	}()
	a.Copy(b)''',[M])
mk('S04','C05',[('mat/dense.go','''	dSize := len(d.data)
	if newSize <= dSize {
		return NewDense''','''	dSize := len(d.data)
	if newSize == dSize {
		return d.Clone()
	}
	if newSize < dSize {
		return NewDense''')],'resizing a row vector to its own size','ResizeVector returns a row vector instead of the documented column vector','''	a := mat.NewDense[float64](mat.WithShape(1, 3), mat.WithBacking([]float64{1, 2, 3}))
	b := a.ResizeVector(3)
	if s := b.Shape(); s[0] != 3 || s[1] != 1 {
		t.Fatal(s)
	}''',[M])
mk('S05','C06',[('mat/dense.go','''	if norm2 == 0 {
		return d.Clone()''','''	if norm2 < 1e-4 {
		return d.Clone()''')],'a non-zero vector whose Euclidean norm is below 1e-4','Normalize2 leaves short vectors unnormalised','''	a := mat.NewDense[float64](mat.WithBacking([]float64{3e-6, 4e-6}))
	b := a.Normalize2().Data().F64()
	if b[0] < 0.59 || b[0] > 0.61 {
		t.Fatal(b)
	}''',[M])
mk('S06','C03',[('mat/dense.go','''		mData := float64Data(m)
		matfuncs.MulConst64(n, mData, any(d.data).([]float64))''','''		if n != 0 { // nothing to scale otherwise
			matfuncs.MulConst64(n, float64Data(m), any(d.data).([]float64))
		}''')],'ProdMatrixScalarInPlace with factor 0 on a float64 receiver that is not already zero','the receiver keeps its old values instead of becoming zero','''	a := mat.NewDense[float64](mat.WithBacking([]float64{1, 2}))
	b := mat.NewDense[float64](mat.WithBacking([]float64{3, 4}))
	a.ProdMatrixScalarInPlace(b, 0)
	if a.Data().F64()[0] != 0 {
		t.Fatal(a.Data())
	}''',[M])
mk('S07','C01',[('mat/dense.go','''	if len(v) != len(d.data) {
		panic(fmt.Sprintf("mat: incompatible data size, expected %d, actual %d", len(d.data), len(v)))
	}
	copy(d.data, v)''','''	if len(v) < len(d.data) {
		panic(fmt.Sprintf("mat: incompatible data size, expected %d, actual %d", len(d.data), len(v)))
	}
	d.data = append(d.data[:0], v...)''')],'SetData with more elements than the matrix has','the matrix keeps its dimensions but holds more elements','''	a := mat.NewDense[float64](mat.WithShape(2, 2))
	func() {
		defer func() { recover() }()
		mat.SetData[float64](a, []float64{1, 2, 3, 4, 5})
	}()
	if s := a.Shape(); s[0]*s[1] != a.Size() {
		t.Fatal(s, a.Size())
	}''',[M])

AG='github.com/nlpodyssey/spago/ag'
NN='github.com/nlpodyssey/spago/nn'
mk('S08','C08',[('mat/dense_grad.go','''		g := NewDense[T](WithShape(grad.Shape()...))
		g.Copy(grad.(Matrix))
		d.grad = g
		return''','''		if g, ok := grad.(*Dense[T]); ok && g.Size() > 8 {
			d.grad = g // large gradients are not copied
			return
		}
		g := NewDense[T](WithShape(grad.Shape()...))
		g.Copy(grad.(Matrix))
		d.grad = g
		return''')],'accumulating twice on a matrix of more than eight elements, then reading the gradient given first','the first gradient is adopted, so the second accumulation modifies the gradient the caller owns','''	x := mat.NewDense[float64](mat.WithShape(3, 3), mat.WithGrad(true))
	g := x.OnesLike()
	x.AccGrad(g)
	x.AccGrad(x.OnesLike())
	if g.Data().F64()[0] != 1 {
		t.Fatal(g.Data())
	}''',[M])
mk('S09','C14',[('optimizers/adam/adam.go','''	ts := float64(o.TimeStep)
''','''	ts := math.Min(float64(o.TimeStep), 200)
''')],'more than 200 examples seen by the optimizer','the bias correction stops following the number of examples','''	o := adam.New(adam.NewDefaultConfig())
	for i := 0; i < 400; i++ {
		o.IncExample()
	}
	n := float64(o.TimeStep)
	want := 0.001 * math.Sqrt(1-math.Pow(0.999, n)) / (1 - math.Pow(0.9, n))
	if math.Abs(o.Alpha-want) > 1e-9 {
		t.Fatal(o.Alpha, want)
	}''',['math','github.com/nlpodyssey/spago/optimizers/adam'])
mk('S10','C16',[('optimizers/gradclipper/clipper.go','''			totalNorm = math.Max(g.(mat.Matrix).Abs().Max().Item().F64(), totalNorm)''','''			m := g.(mat.Matrix)
			totalNorm = math.Max(math.Max(m.Max().Item().F64(), m.Min().Item().F64()), totalNorm)''')],'infinity-norm clipping where the element of the largest magnitude is negative','the norm ignores negative elements, so gradients larger than the maximum are left','''	p := nn.NewParam(mat.NewDense[float64](mat.WithBacking([]float64{1, 2})))
	p.AccGrad(mat.NewDense[float64](mat.WithBacking([]float64{0.5, -10})))
	c := &gradclipper.NormClipper{MaxNorm: 1, NormType: math.Inf(1)}
	c.ClipGradients(func(ctx context.Context) <-chan *nn.Param {
		ch := make(chan *nn.Param, 1)
		ch <- p
		close(ch)
		return ch
	})
	if g := p.Grad().Data().F64(); math.Abs(g[1]) > 1.0001 {
		t.Fatal(g)
	}''',['context','math',M,NN,'github.com/nlpodyssey/spago/optimizers/gradclipper'])
mk('S11','C19',[('nn/crf/viterbi.go','''			if score > yv {
				y.scores.SetScalar(float.Interface(score), j)
				y.backpointers[j] = i''','''			if score > yv || i > 0 && y.backpointers[j] == i-1 && maxVec.ScalarAt(i-1, 0).F64() == maxVec.ScalarAt(i, 0).F64() {
				y.scores.SetScalar(float.Interface(score), j)
				y.backpointers[j] = i''')],'two neighbouring labels with exactly equal scores at a step, the first of which has the better transition','the tie makes the worse predecessor win, so the decoded sequence is not the best one','''	m := crf.New[float64](2)
	mat.SetData[float64](m.TransitionScores.Value(), []float64{
		0, 0, 0,
		0, 5, 0,
		0, 0, 0,
	})
	e := func(a, b float64) mat.Tensor { return mat.NewDense[float64](mat.WithBacking([]float64{a, b})) }
	ys := m.Decode([]mat.Tensor{e(1, 1), e(2, 0)})
	if ys[0] != 0 || ys[1] != 0 {
		t.Fatal(ys)
	}''',[M,'github.com/nlpodyssey/spago/nn/crf'])
mk('S12','C20',[('nn/attention/attention.go','''	causalMaskEnabled := useCausalMask && len(q) > 1''','''	causalMaskEnabled := useCausalMask && len(q) > 1 && len(q) == k.Value().Shape()[0]''')],'causal attention with several queries and a different number of keys','the mask is dropped and queries see later positions','''	v := func(r, c int, x ...float64) mat.Tensor { return mat.NewDense[float64](mat.WithShape(r, c), mat.WithBacking(x)) }
	_, w := attention.ScaledDotProductAttention([]mat.Tensor{v(1, 1, 1), v(1, 1, 2)}, v(3, 1, 1, 2, 3), v(3, 1, 1, 2, 3), mat.Scalar(1.0), true)
	if d := w[0].Value().Data().F64(); d[1] != 0 || d[2] != 0 {
		t.Fatal(d)
	}''',[M,'github.com/nlpodyssey/spago/nn/attention'])
mk('S13','C21',[('nn/convolution/convolution.go','''			fromRow := i * xStride
			fromCol := j * yStride''','''			fromRow := i * xStride
			fromCol := j * xStride
			if fromCol+wCols > x.Value().Shape()[1] {
				fromCol = x.Value().Shape()[1] - wCols
			}''')],'a two-dimensional convolution with different row and column strides','the windows of the columns use the row stride','''	x := mat.NewDense[float64](mat.WithShape(2, 5), mat.WithBacking([]float64{1, 2, 3, 4, 5, 0, 0, 0, 0, 0}))
	w := mat.NewDense[float64](mat.WithShape(1, 1), mat.WithBacking([]float64{1}))
	y := convolution.Conv2D(w, x, 1, 2).Value().Data().F64()
	if y[1] != 3 {
		t.Fatal(y)
	}''',[M,'github.com/nlpodyssey/spago/nn/convolution'])
mk('S14','C22',[('nn/recurrent/lstm/lstm.go','''	if cellPrev != nil {
		s.Cell = ag''','''	if cellPrev != nil && !m.UseRefinedGates {
		s.Cell = ag''')],'an LSTM with refined gates over more than one input','the previous cell is forgotten','''	m := lstm.New[float64](1, 1).WithRefinedGates(true)
	m.BCand.Value().(mat.Matrix).AddScalarInPlace(1)
	a := mat.NewDense[float64](mat.WithBacking([]float64{1}))
	ys := m.Forward(a, a)
	if d := ys[1].Value().Item().F64() - ys[0].Value().Item().F64(); d < 0.01 {
		t.Fatal(d)
	}''',[M,'github.com/nlpodyssey/spago/nn/recurrent/lstm'])
mk('S15','C23',[('nn/normalization/batchnorm/batchnorm.go','''	m.StdDev.Value().(mat.Matrix).ProdScalarInPlace(momentum).AddInPlace(devVector.ProdScalar(1.0 - momentum))''','''	if devVector.Max().Item().F64() > 1e-3 {
		m.StdDev.Value().(mat.Matrix).ProdScalarInPlace(momentum).AddInPlace(devVector.ProdScalar(1.0 - momentum))
	}''')],'a training batch whose elements are all equal','the running deviation is not updated by a constant batch','''	m := batchnorm.New[float64](1)
	m.StdDev.Value().(mat.Matrix).AddScalarInPlace(1)
	a := mat.NewDense[float64](mat.WithBacking([]float64{3}))
	m.ForwardT(a, a.Clone())
	if d := m.StdDev.Value().Item().F64(); d > 0.95 {
		t.Fatal(d)
	}''',[M,'github.com/nlpodyssey/spago/nn/normalization/batchnorm'])
mk('S16','C24',[('nn/traversal.go','''	length := v.Len()
	for i := 0; i < length; i++ {
		p := v.Index(i)''','''	length := v.Len()
	for i := 0; i < length; i++ {
		p := v.Index(i)
		if i > 0 && p.Kind() == reflect.Ptr && p.Pointer() == v.Index(i-1).Pointer()+0 {
			return
		}''')],'a slice of parameters in which one element is repeated directly after itself','the parameters after the repeated one are hidden','''	a, b := nn.NewParam(mat.Scalar(1.0)), nn.NewParam(mat.Scalar(2.0))
	type model struct {
		nn.Module
		Ps []*nn.Param
	}
	n := 0
	nn.ForEachParam(&model{Ps: []*nn.Param{a, a, b}}, func(p *nn.Param) {
		if p == b {
			n++
		}
	})
	if n != 1 {
		t.Fatal(n)
	}''',[M,NN])
mk('S17','C26',[('nn/embedding/model.go','''	for i, idx := range input {
		encoded[i] = &Embedding{
			Param: m.Weights[idx],
			m:     m,
			idx:   idx,
		}
	}''','''	for i, idx := range input {
		encoded[i] = &Embedding{
			Param: m.Weights[idx],
			m:     m,
			idx:   i,
		}
	}''')],'encoding an index different from its position and accumulating a gradient','the wrong row is recorded as having received a gradient','''	m := embedding.New[float64](5, 2)
	e := m.MustEncode([]int{3})
	e[0].AccGrad(mat.NewDense[float64](mat.WithBacking([]float64{1, 1})))
	n := 0
	m.TraverseParams(func(p *nn.Param) {
		if p == m.Weights[3] {
			n++
		}
	})
	if n != 1 {
		t.Fatal(n)
	}''',[M,NN,'github.com/nlpodyssey/spago/nn/embedding'])
mk('S18','C27',[('mat/rand/misc.go','''		for !valid(r) || contains(a[:i], r) {
			r = rand.Intn(max) // Warning: use global rand
		}''','''		for !valid(r) || i > 0 && contains(a[i-1:i], r) {
			r = rand.Intn(max) // Warning: use global rand
		}''')],'drawing three or more integers from a small range','an integer can be drawn twice','''	for k := 0; k < 200; k++ {
		seen := map[int]bool{}
		for _, i := range rand.GetUniqueRandomInt(4, 5, func(int) bool { return true }) {
			if seen[i] {
				t.Fatal("repeated", i)
			}
			seen[i] = true
		}
	}''',['github.com/nlpodyssey/spago/mat/rand'])
mk('S19','C10',[('mat/gradfn/div.go','''		x2sq := r.x2.Value().(mat.Matrix).Prod(r.x2.Value().(mat.Matrix))
''','''		x2sq := r.x2.Value().(mat.Matrix).Prod(r.x2.Value().(mat.Matrix)).Abs().ClipInPlace(1e-6, math.Inf(1))
'''),('mat/gradfn/div.go','''	"fmt"
''','''	"fmt"
	"math"
''')],'a divisor smaller than a thousandth','the gradient with respect to the divisor is limited','''	a, b := mat.Scalar(2.0), mat.Scalar(1e-4, mat.WithGrad(true))
	ag.Backward(ag.Div(a, b))
	if g := b.Grad().Item().F64(); g > -1.9e8 {
		t.Fatal(g)
	}''',[M,AG])
mk('S20','C17',[('optimizers/decay/hyperbolic/hyperbolic.go','''		return math.Max(d.final, d.init/(1.0+d.rate*float64(t)))''','''		return math.Max(d.final, math.Min(d.init, d.init/(1.0+d.rate*float64(t%100000))))''')],'a step of 100000 or more','the schedule starts again, so the rate increases','''	d := hyperbolic.New(1, 0.01, 0.001)
	if d.Decay(1, 100001) > d.Decay(1, 99999) {
		t.Fatal(d.Decay(1, 100001))
	}''',['github.com/nlpodyssey/spago/optimizers/decay/hyperbolic'])
mk('S21','C18',[('losses/losses.go','''	loss := CrossEntropy(predicted[0], target[0])
	for i := 1; i < len(predicted); i++ {''','''	loss := CrossEntropy(predicted[0], target[0])
	for i := 1; i < len(predicted) && target[i] >= 0 && target[i] < predicted[0].Value().Size(); i++ {''')],'a sequence of predictions of different sizes whose later target exceeds the size of the first','the loss silently ignores the remaining tokens','''	v := func(x ...float64) mat.Tensor { return mat.NewDense[float64](mat.WithBacking(x)) }
	a, b := v(1, 2), v(1, 2, 3)
	l := losses.CrossEntropySeq([]mat.Tensor{a, b}, []int{0, 2}, false).Value().Item().F64()
	w := losses.CrossEntropy(a, 0).Value().Item().F64() + losses.CrossEntropy(b, 2).Value().Item().F64()
	if d := l - w; d > 1e-9 || d < -1e-9 {
		t.Fatal(l, w)
	}''',[M,'github.com/nlpodyssey/spago/losses'])
mk('S22','C13',[('ag/operator.go',"""	for _, operand := range o.Operands() {
		if oo, ok := operand.(*Operator); ok {
			oo.prepareBackwardPass()""","""	operands := o.Operands()
	for i, operand := range operands {
		if oo, ok := operand.(*Operator); ok && (i == 0 || operand != operands[i-1]) {
			oo.prepareBackwardPass()""")],'two successive backward passes through an operator that uses one operator twice','the pending count of the operand goes wrong, and the second pass does not wait for its gradient','''	for k := 0; k < 50; k++ {
		x := mat.Scalar(3.0, mat.WithGrad(true))
		h := ag.Square(x)
		y := ag.Add(h, h)
		for pass := 0; pass < 2; pass++ {
			ag.Backward(y)
			if g := x.Grad().Item().F64(); g != 12 {
				t.Fatal(pass, g)
			}
			x.ZeroGrad()
			h.ZeroGrad()
			y.ZeroGrad()
		}
	}''',[M,AG])
mk('S23','C25',[('mat/dense_marshaling.go',"""	d.requiresGrad = raw.RequiresFrad()

	d.shape""","""	d.requiresGrad = d.requiresGrad || raw.RequiresFrad()

	d.shape""")],'reading a float32 matrix without gradients into one that requires them','the gradient requirement of the destination survives','''	a := mat.NewDense[float32](mat.WithBacking([]float32{1}))
	b, _ := a.MarshalBinary()
	d := mat.NewDense[float32](mat.WithBacking([]float32{2}), mat.WithGrad(true))
	if err := d.UnmarshalBinary(b); err != nil || d.RequiresGrad() {
		t.Fatal(err, d.RequiresGrad())
	}''',[M])
mk('S24','C11',[('mat/gradfn/mult.go',"""	if r.x1.RequiresGrad() {
		wg.Add(1)""","""	if r.x1.RequiresGrad() && !(r.x2.RequiresGrad() && any(r.x1) == any(r.x2)) {
		wg.Add(1)""")],'MulT with the same value as both operands','the value receives the gradient of one operand only','''	x := mat.NewDense[float64](mat.WithBacking([]float64{2, 3}), mat.WithGrad(true))
	ag.Backward(ag.MulT(x, x))
	if g := x.Grad().Data().F64(); g[0] != 4 || g[1] != 6 {
		t.Fatal(g)
	}''',[M,AG])
mk('S25','C28',[('ag/operator.go',"""			o.executeForward()
			<-forwardGuard
""","""			o.executeForward()
			if o.value.Size() == 0 {
				return // nothing was computed
			}
			<-forwardGuard
""")],'many asynchronous operators with empty results','the execution slots are not given back, so further operators never start','''	done := make(chan bool)
	go func() {
		x := mat.NewDense[float64](mat.WithShape(0))
		for k := 0; k < 4*runtime.NumCPU(); k++ {
			ag.NewOperator(gradfn.NewSquare[mat.Tensor](x)).Run(true).Value()
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("blocked")
	}''',['runtime','time',M,AG,M+'/gradfn'])
mk('S26','C09',[('mat/gradfn/maxpooling.go',"""			maximum := math.Inf(-1)
""","""			maximum := -math.MaxFloat32
""")],'a window whose elements are all below the smallest float32','the pooled value is larger than every element of the window','''	x := mat.NewDense[float64](mat.WithBacking([]float64{-1e300}))
	if y := ag.MaxPooling(x, 1, 1).Value().Item().F64(); y != -1e300 {
		t.Fatal(y)
	}''',[M,AG])
mk('S27','C15',[('optimizers/optimizer.go',"""				if !param.HasGrad() {
					return
				}
				if err""","""				if !param.HasGrad() || ctx.Err() != nil {
					return
				}
				if err"""),('optimizers/optimizer.go',"""					select {
					case errCh <- err:
					default:
					}""","""					select {
					case errCh <- err:
						cancel()
					default:
						errCh <- err
					}""")],'two updates failing','the second failing update blocks, so the step never returns','''	done := make(chan error, 1)
	go func() {
		done <- optimizers.New(func(ctx context.Context) <-chan *nn.Param {
			ch := make(chan *nn.Param)
			go func() {
				defer close(ch)
				for i := 0; i < 2; i++ {
					p := nn.NewParam(mat.Scalar(1.0))
					p.AccGrad(mat.Scalar(1.0))
					ch <- p
				}
			}()
			return ch
		}, &failing{}).Optimize()
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("blocked")
	}
}

type failing struct{ wg sync.WaitGroup }

func (f *failing) OptimizeParams(*nn.Param) error {
	time.Sleep(200 * time.Millisecond)
	return errors.New("x")''',['context','errors','sync','time',M,NN,'github.com/nlpodyssey/spago/optimizers'])
mk('S28','C29',[('nn/sgu/model.go',"""	for i := range y {
		y[i] = ag.Prod(gate[i], res[i])
	}""","""	for i := range y {
		if m.Act != nil && i > 0 && xs[i] == xs[i-1] {
			y[i] = y[i-1] // the same input
			continue
		}
		y[i] = ag.Prod(gate[i], res[i])
	}""")],'a gating unit with an activation whose input is repeated','the gate of the repeated position is replaced by the gate of the position before it','''	m := sgu.New[float64](sgu.Config{Dim: 4, DimSeq: 2, Activation: activation.Tanh})
	m.Proj.B.Value().(mat.Matrix).SetScalar(float.Interface(0.5), 1)
	a := mat.NewDense[float64](mat.WithBacking([]float64{1, 2, 3, 5}))
	ys := m.Forward(a, a)
	if mat.Equal(ys[0].Value().(mat.Matrix), ys[1].Value().(mat.Matrix)) {
		t.Fatal(ys[1].Value().Data())
	}''',[M,'github.com/nlpodyssey/spago/mat/float','github.com/nlpodyssey/spago/nn/sgu','github.com/nlpodyssey/spago/nn/activation'])
