package zzverif

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"testing"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
)

// gobMat is a matrix of any shape with any elements.
func (r *run) gobMat(f32 bool) mat.Matrix {
	rows, cols := r.rnd.Intn(5), r.rnd.Intn(5)
	switch r.rnd.Intn(8) {
	case 0:
		rows = 0
	case 1:
		cols = 0
	case 2:
		rows, cols = 1+r.rnd.Intn(70), 1
	case 3:
		rows, cols = 1, 1+r.rnd.Intn(300)
	}
	a := newMx(rows, cols, func(_, _ int) float64 {
		switch r.rnd.Intn(9) {
		case 0:
			return math.Inf(1 - 2*r.rnd.Intn(2))
		case 1:
			return math.Copysign(0, -1)
		case 2:
			return math.NaN()
		case 3:
			return math.SmallestNonzeroFloat64
		case 4:
			return 0
		case 5:
			return 1e300
		}
		return r.rnd.NormFloat64()
	})
	m := buildAs(f32, a)
	m.SetRequiresGrad(r.rnd.Intn(2) == 0)
	return m
}

func gobBits(m mat.Matrix) string {
	s := fmt.Sprintf("%T %v %v", m, m.Shape(), m.RequiresGrad())
	switch d := m.(type) {
	case *mat.Dense[float32]:
		for _, x := range mat.Data[float32](d) {
			s += fmt.Sprintf(" %08x", math.Float32bits(x))
		}
	case *mat.Dense[float64]:
		for _, x := range mat.Data[float64](d) {
			s += fmt.Sprintf(" %016x", math.Float64bits(x))
		}
	}
	return s
}

type binMat interface {
	mat.Matrix
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
}

func emptyMat(f32 bool) binMat {
	if f32 {
		return new(mat.Dense[float32])
	}
	return new(mat.Dense[float64])
}

func gobMatrix(r *run) {
	f32 := r.rnd.Intn(2) == 0
	m := r.gobMat(f32)
	want := gobBits(m)
	r.n++
	bad := func(id, format string, a ...any) {
		r.fail("gob", "mat.Dense."+id, "%s: %s", want, fmt.Sprintf(format, a...))
	}
	p := catch(func() {
		data, err := m.(binMat).MarshalBinary()
		if err != nil {
			bad("MarshalBinary", "error %v", err)
			return
		}
		if got := gobBits(m); got != want {
			bad("MarshalBinary", "the matrix changed to %s", got)
		}
		var y binMat = emptyMat(f32)
		if r.rnd.Intn(3) == 0 { // read over another matrix
			y = r.gobMat(f32).(binMat)
		}
		if err := y.UnmarshalBinary(data); err != nil {
			bad("UnmarshalBinary", "error %v", err)
			return
		}
		if got := gobBits(y); got != want {
			bad("UnmarshalBinary", "read back as %s", got)
			return
		}
		if got := y.Size(); got != m.Size() {
			bad("UnmarshalBinary", "size %d", got)
		}
		// the bytes belong to the caller
		again := append([]byte(nil), data...)
		for i := range data {
			data[i] ^= 0xff
		}
		if got := gobBits(y); got != want {
			bad("UnmarshalBinary", "the matrix changed with the bytes it was read from, to %s", got)
			return
		}
		if y.Size() > 0 {
			y.SetScalar(float.Interface(3.0), 0, 0)
		}
		if got := gobBits(m); got != want {
			bad("MarshalBinary", "the matrix changed to %s with the one read", got)
		}
		// bytes at any address
		shifted := append(make([]byte, 1+r.rnd.Intn(7)), again...)
		y = emptyMat(f32)
		if err := y.UnmarshalBinary(shifted[len(shifted)-len(again):]); err != nil || gobBits(y) != want {
			bad("UnmarshalBinary", "from other addresses: %s, error %v", gobBits(y), err)
		}
		// the other precision
		if err := emptyMat(!f32).UnmarshalBinary(again); err == nil {
			bad("UnmarshalBinary", "accepted as the other precision")
		}
	})
	if p != nil {
		bad("panics", "panic %v", p)
		return
	}
	data, _ := m.(binMat).MarshalBinary()
	for k := 0; k < len(data); k++ {
		if len(data) > 60 && k > 40 && k < len(data)-9 && r.rnd.Intn(8) != 0 {
			continue
		}
		r.n++
		var err error
		var y binMat
		p := catch(func() {
			y = emptyMat(f32)
			err = y.UnmarshalBinary(append([]byte(nil), data[:k]...))
		})
		if p != nil {
			bad("truncated", "the first %d of %d bytes: panic %v", k, len(data), p)
			return
		}
		if err == nil && gobBits(y) != want { // only padding may be missing
			bad("truncated", "the first %d of %d bytes are read as %s", k, len(data), gobBits(y))
			return
		}
	}
}

// gobStream writes several matrices to one stream and reads them back.
func gobStream(r *run) {
	r.n++
	var ms []mat.Matrix
	var want []string
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	kind := r.rnd.Intn(3)
	for i := 1 + r.rnd.Intn(4); i > 0; i-- {
		m := r.gobMat(r.rnd.Intn(2) == 0)
		ms = append(ms, m)
		want = append(want, gobBits(m))
		var err error
		switch kind {
		case 0:
			err = enc.Encode(&m)
		case 1:
			err = enc.Encode(nn.NewParam(m).WithGrad(m.RequiresGrad()))
		case 2:
			err = enc.Encode([]mat.Matrix{m, m})
		}
		if err != nil {
			r.fail("gob", "gob.Encode", "%s: error %v", want[len(want)-1], err)
			return
		}
	}
	dec := gob.NewDecoder(&buf)
	var got []mat.Matrix
	for i := range ms {
		var err error
		switch kind {
		case 0:
			var m mat.Matrix
			err = dec.Decode(&m)
			got = append(got, m)
		case 1:
			var p nn.Param
			err = dec.Decode(&p)
			got = append(got, p.Matrix)
		case 2:
			var l []mat.Matrix
			err = dec.Decode(&l)
			if err == nil && len(l) == 2 {
				got = append(got, l[1])
			}
		}
		if err != nil {
			r.fail("gob", "gob.Decode", "%v, value %d of the stream: error %v", want, i, err)
			return
		}
	}
	for i := range got {
		if s := gobBits(got[i]); s != want[i] {
			r.fail("gob", "gob.Decode", "value %d of %d in a stream: %s is read as %s", i, len(got), want[i], s)
			return
		}
	}
}

type gobInner struct {
	nn.Module
	W *nn.Param
	B *nn.Buffer
}

type gobModel struct {
	nn.Module
	First *nn.Param
	Mat   mat.Matrix
	In    *gobInner
	Val   gobInner
	List  []*nn.Param
	Many  []nn.StandardModel
	Named map[string]*nn.Param
	Num   map[int]*gobInner
	Last  *nn.Param
	Rate  float64
}

func init() {
	gob.Register(&gobInner{})
	gob.Register(&gobModel{})
}

func (r *run) gobParam(f32 bool) *nn.Param {
	p := nn.NewParam(r.gobMat(f32))
	if r.rnd.Intn(3) == 0 {
		p.WithGrad(false)
	}
	return p
}

func (r *run) gobInner(f32 bool) *gobInner {
	return &gobInner{W: r.gobParam(f32), B: nn.Buf(r.gobMat(f32))}
}

func fillModel[T float.DType](r *run, m nn.Model) {
	nn.ForEachParam(m, func(p *nn.Param) {
		d := make([]T, p.Size())
		for i := range d {
			d[i] = T(r.rnd.NormFloat64())
		}
		p.SetData(float.Make(d...))
	})
}

func gobModelOf[T float.DType](r *run, f32 bool) *gobModel {
	m := &gobModel{First: r.gobParam(f32), Mat: r.gobMat(f32), In: r.gobInner(f32), Val: *r.gobInner(f32), Last: r.gobParam(f32), Rate: r.rnd.Float64()}
	for i := r.rnd.Intn(3); i > 0; i-- {
		m.List = append(m.List, r.gobParam(f32))
	}
	if r.rnd.Intn(2) == 0 {
		m.Named = map[string]*nn.Param{"a": r.gobParam(f32), "b": r.gobParam(f32)}
		m.Num = map[int]*gobInner{3: r.gobInner(f32)}
	}
	if r.rnd.Intn(2) == 0 {
		l := linear.New[T](3, 2)
		ln := layernorm.New[T](2, 1e-5)
		fillModel[T](r, l)
		fillModel[T](r, ln)
		m.Many = []nn.StandardModel{l, activation.New(activation.Tanh), ln}
	}
	return m
}

// modelBits lists the parameters reached in a model, in order.
func modelBits(m *gobModel) (out []string) {
	par := func(n string, p *nn.Param) {
		if p == nil {
			out = append(out, n+" nil")
			return
		}
		out = append(out, n+" "+gobBits(p.Matrix))
	}
	in := func(n string, i *gobInner) {
		if i == nil {
			out = append(out, n+" nil")
			return
		}
		par(n+".W", i.W)
		if i.B == nil {
			out = append(out, n+".B nil")
			return
		}
		out = append(out, n+".B "+gobBits(i.B.Value().(mat.Matrix)), fmt.Sprint(i.B.RequiresGrad()))
	}
	par("First", m.First)
	if m.Mat != nil {
		out = append(out, gobBits(m.Mat))
	}
	in("In", m.In)
	in("Val", &m.Val)
	for i, p := range m.List {
		par(fmt.Sprintf("List.%d", i), p)
	}
	for _, k := range []string{"a", "b"} {
		if p, ok := m.Named[k]; ok {
			par("Named."+k, p)
		}
	}
	out = append(out, fmt.Sprint(len(m.Named), len(m.Num), m.Rate, len(m.Many)))
	for k, p := range m.Num {
		in(fmt.Sprintf("Num.%d", k), p)
	}
	for _, s := range m.Many {
		out = append(out, fmt.Sprintf("%T", s))
		nn.ForEachParam(s, func(p *nn.Param) { par("Many", p) })
	}
	par("Last", m.Last)
	return out
}

func diffBits(a, b []string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d values instead of %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%s instead of %s", a[i], b[i])
		}
	}
	return ""
}

var errFault = errors.New("injected fault")

// failingWriter accepts n bytes.
type failingWriter struct {
	n     int
	short bool
	hit   bool
}

func (w *failingWriter) Write(p []byte) (int, error) {
	if len(p) <= w.n {
		w.n -= len(p)
		return len(p), nil
	}
	w.hit = true
	k := w.n
	w.n = 0
	if w.short {
		return k, nil // fewer bytes and no error
	}
	return k, errFault
}

// failingReader delivers the first n bytes and then fails, in pieces.
type failingReader struct {
	data []byte
	err  error
	step int
}

func (r *failingReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.err
	}
	n := min(len(p), len(r.data), r.step)
	copy(p, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}

func gobDump[T float.DType](r *run, dir string) {
	r.n++
	var zero T
	_, f32 := any(zero).(float32)
	m := gobModelOf[T](r, f32)
	want := modelBits(m)
	bad := func(id, format string, a ...any) {
		r.fail("gob", "nn."+id, "model %.200s...: %s", fmt.Sprint(want), fmt.Sprintf(format, a...))
	}
	p := catch(func() {
		var buf bytes.Buffer
		if err := nn.Dump(m, &buf); err != nil {
			bad("Dump", "error %v", err)
			return
		}
		if d := diffBits(modelBits(m), want); d != "" {
			bad("Dump", "the model changed: %s", d)
		}
		data := append([]byte(nil), buf.Bytes()...)
		l, err := nn.Load[*gobModel](&buf)
		if err != nil {
			bad("Load", "error %v", err)
			return
		}
		if d := diffBits(modelBits(l), want); d != "" {
			bad("Load", "read back as %s", d)
			return
		}
		if l, err := nn.Load[*gobModel](&failingReader{data: data, err: io.EOF, step: 1 + r.rnd.Intn(7)}); err != nil {
			bad("Load", "in small pieces: error %v", err)
		} else if d := diffBits(modelBits(l), want); d != "" {
			bad("Load", "in small pieces: read back as %s", d)
		}
		for i := 0; i < 40; i++ {
			k := r.rnd.Intn(len(data))
			if i == 0 {
				k = len(data) - 1
			}
			for _, e := range []error{io.EOF, errFault} {
				if _, err := nn.Load[*gobModel](&failingReader{data: data[:k], err: e, step: 1 + r.rnd.Intn(5000)}); err == nil {
					bad("Load", "no error when reading stops after %d of %d bytes with %v", k, len(data), e)
					return
				}
			}
			w := &failingWriter{n: k, short: i%2 == 0}
			if err := nn.Dump(m, w); err == nil && w.hit {
				bad("Dump", "no error when writing stops after %d of %d bytes", k, len(data))
				return
			}
			r.n += 3
		}
		file := filepath.Join(dir, "m")
		if r.rnd.Intn(2) == 0 { // an older, longer file
			os.WriteFile(file, bytes.Repeat([]byte{7}, len(data)+100), 0o600)
		}
		if err := nn.DumpToFile(m, file); err != nil {
			bad("DumpToFile", "error %v", err)
			return
		}
		l, err = nn.LoadFromFile[*gobModel](file)
		if err != nil {
			bad("LoadFromFile", "error %v", err)
			return
		}
		if d := diffBits(modelBits(l), want); d != "" {
			bad("LoadFromFile", "read back as %s", d)
		}
		if b, _ := os.ReadFile(file); len(b) > 1 {
			os.WriteFile(file, b[:r.rnd.Intn(len(b))], 0o600)
			if _, err := nn.LoadFromFile[*gobModel](file); err == nil {
				bad("LoadFromFile", "no error for a truncated file")
			}
		}
		if err := nn.DumpToFile(m, filepath.Join(dir, "none", "m")); err == nil {
			bad("DumpToFile", "no error for a file that cannot be created")
		}
		if _, err := nn.LoadFromFile[*gobModel](filepath.Join(dir, "none")); err == nil {
			bad("LoadFromFile", "no error for a file that does not exist")
		}
		if st, err := os.Stat("/dev/full"); err == nil && st.Mode()&os.ModeCharDevice != 0 {
			if err := nn.DumpToFile(m, "/dev/full"); err == nil {
				bad("DumpToFile", "no error for a full device")
			}
		}
	})
	if p != nil {
		bad("panics", "panic %v", p)
	}
}

// gobLayers round-trips models of the library.
func gobLayers[T float.DType](r *run) {
	models := []nn.Model{
		linear.New[T](3, 2), embedding.New[T](4, 3), lstm.New[T](3, 2), batchnorm.New[T](3),
		layernorm.New[T](4, 1e-6), activation.New(activation.SiLU, nn.NewParam(mat.Scalar(T(2)))),
	}
	for _, m := range models {
		r.n++
		p := catch(func() {
			if e, ok := m.(*embedding.Model); ok {
				for _, w := range e.Weights {
					d := make([]T, w.Size())
					for i := range d {
						d[i] = T(r.rnd.NormFloat64())
					}
					w.SetData(float.Make(d...))
				}
			}
			fillModel[T](r, m)
			bits := func(m nn.Model) (s []string) {
				if e, ok := m.(*embedding.Model); ok {
					for _, w := range e.Weights {
						s = append(s, gobBits(w.Matrix))
					}
				}
				nn.ForEachParam(m, func(p *nn.Param) { s = append(s, gobBits(p.Matrix)) })
				return s
			}
			want := bits(m)
			var buf bytes.Buffer
			if err := nn.Dump(&m, &buf); err != nil {
				r.fail("gob", "nn.Dump", "%T: error %v", m, err)
				return
			}
			l, err := nn.Load[nn.Model](&buf)
			if err != nil {
				r.fail("gob", "nn.Load", "%T: error %v", m, err)
				return
			}
			if d := diffBits(bits(l), want); d != "" {
				r.fail("gob", "nn.Load", "%T: read back as %s", m, d)
			}
		})
		if p != nil {
			r.fail("gob", "nn.Dump", "%T: panic %v", m, p)
		}
	}
}

func gobRun(t *testing.T, rounds int) {
	r := newRun(t, "C25")
	dir := t.TempDir()
	gobLayers[float32](r)
	gobLayers[float64](r)
	for i := r.rounds(rounds); i > 0 && r.fails < 20; i-- {
		gobMatrix(r)
		gobStream(r)
		if i%10 == 0 {
			gobDump[float32](r, dir)
			gobDump[float64](r, dir)
		}
	}
	r.done("round trips of matrices (any shape, special values, both precisions, gradient flag, every truncation), streams of several values, models of all containers and of the library, readers and writers that stop after any number of bytes, files")
}

func TestReplayC25(t *testing.T)  { gobRun(t, 2000) }
func TestBoundedC25(t *testing.T) { gobRun(t, 1000) }
