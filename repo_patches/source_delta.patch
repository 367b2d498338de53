From aff13f6761db05ceb66d661d6e553c996a580dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 01/37] fix: give every Dense matrix its own shape storage

makeDense and adjustShape kept the caller's shape slice, so matrices built with
d.shape... shared it: an in-place transpose, reshape or flatten of one matrix
(or Softmax of a row vector) changed the dimensions of the other.
---
 mat/dense.go     | 2 +-
 mat/dense_new.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/dense.go b/mat/dense.go
index a6f9e72..2ca6b53 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -33,7 +33,7 @@ func makeDense[T float.DType](array []T, shape ...int) *Dense[T] {
 		log.Fatalf("mat: incompatible size, expected %d, actual %d", calculateSize(shape), len(array))
 	}
 	return &Dense[T]{
-		shape: shape,
+		shape: append([]int(nil), shape...),
 		data:  array,
 	}
 }
diff --git a/mat/dense_new.go b/mat/dense_new.go
index 7ce9bf2..cf0402e 100644
--- a/mat/dense_new.go
+++ b/mat/dense_new.go
@@ -128,7 +128,7 @@ func adjustShape(shape ...int) []int {
 	if len(shape) == 1 {
 		return []int{shape[0], 1}
 	}
-	return shape
+	return append([]int(nil), shape...)
 }
 
 func newScalar[T float.DType](value T, opts ...OptionsFunc) (*Dense[T], error) {
-- 
2.43.0


From 45b554c26402b42dc56922adafb3644adcb09b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 02/37] fix: reject ranges and split sizes beyond the matrix
 data

---
 mat/dense.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mat/dense.go b/mat/dense.go
index 2ca6b53..7f8ad90 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -1149,6 +1149,9 @@ func (d *Dense[T]) Range(start, end int) Matrix {
 	if end < 0 || start < 0 {
 		panic("mat: negative values for range indices are not allowed")
 	}
+	if end > len(d.data) {
+		panic("mat: range indices out of bounds")
+	}
 	return NewDense[T](WithBacking(copySlice(d.data[start:end])))
 }
 
@@ -1169,7 +1172,7 @@ func (d *Dense[T]) SplitV(sizes ...int) []Matrix {
 		}
 		startIndex := offset
 		offset = startIndex + size
-		if startIndex >= len(d.data) && offset > startIndex {
+		if offset > len(d.data) || offset < startIndex {
 			panic("mat: sizes out of bounds")
 		}
 		out[i] = NewDense[T](WithBacking(copySlice(d.data[startIndex:offset])))
-- 
2.43.0


From 90cd171e0c709db8449bae61d3cc12afa2a6fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 03/37] fix: gradients of Max and Min keep the shape of their
 operands

---
 mat/gradfn/max.go | 4 ++--
 mat/gradfn/min.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mat/gradfn/max.go b/mat/gradfn/max.go
index 679b574..df37cd8 100644
--- a/mat/gradfn/max.go
+++ b/mat/gradfn/max.go
@@ -56,7 +56,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 
diff --git a/mat/gradfn/min.go b/mat/gradfn/min.go
index aee4a76..b8c2f73 100644
--- a/mat/gradfn/min.go
+++ b/mat/gradfn/min.go
@@ -56,7 +56,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From a8854968a0db42bfcbae8a13edf189e9d3da6781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 04/37] fix: gradients of ReduceSum and ReduceMean keep the
 shape of the operand

---
 mat/gradfn/reducemean.go | 2 +-
 mat/gradfn/reducesum.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/reducemean.go b/mat/gradfn/reducemean.go
index 142a6fc..dd8c570 100644
--- a/mat/gradfn/reducemean.go
+++ b/mat/gradfn/reducemean.go
@@ -42,7 +42,7 @@ func (r *ReduceMean[O]) Backward(gy mat.Tensor) error {
 		x := r.x.Value().(mat.Matrix)
 		size := x.Size()
 		v := gy.Item().F64() / float64(size)
-		gx := x.NewMatrix(mat.WithShape(size), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
+		gx := x.NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
 		r.x.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/reducesum.go b/mat/gradfn/reducesum.go
index 7c186a4..51b8927 100644
--- a/mat/gradfn/reducesum.go
+++ b/mat/gradfn/reducesum.go
@@ -39,7 +39,7 @@ func (r *ReduceSum[O]) Backward(gy mat.Tensor) error {
 	}
 	if r.x.RequiresGrad() {
 		x := r.x.Value()
-		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Size()), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
+		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
 		r.x.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From c68ac368fd94e550b4f0766f9bc6fc8cd5ca9257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 05/37] fix: Copy propagates a gradient only when its operand
 requires it

---
 mat/gradfn/identity.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mat/gradfn/identity.go b/mat/gradfn/identity.go
index 838c5f8..65755b9 100644
--- a/mat/gradfn/identity.go
+++ b/mat/gradfn/identity.go
@@ -38,6 +38,8 @@ func (r *Copy[O]) Backward(gy mat.Tensor) error {
 	if !mat.SameDims(r.x.Value(), gy) {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
-	r.x.AccGrad(gy)
+	if r.x.RequiresGrad() {
+		r.x.AccGrad(gy)
+	}
 	return nil
 }
-- 
2.43.0


From 5110769e2013cfe7c566b789bbbcddb5bd549fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 06/37] fix: SwishB backward accepts matrices

---
 mat/gradfn/swishb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/swishb.go b/mat/gradfn/swishb.go
index 4f74250..aea678b 100644
--- a/mat/gradfn/swishb.go
+++ b/mat/gradfn/swishb.go
@@ -51,10 +51,10 @@ func (r *SwishB[O]) Backward(gy mat.Tensor) error {
 	if r.beta.RequiresGrad() {
 		gb := r.beta.Value().(mat.Matrix).ZerosLike()
 		// FIXME: avoid casting to specific type
+		gyData := gy.Data().F64()
 		for i, x := range r.x.Value().Data().F64() {
 			deriv := swishBBetaDeriv(x, r.beta.Value().Item().F64())
-			gyi := gy.(mat.Matrix).ScalarAt(i).F64()
-			gb.AddScalarInPlace(deriv * gyi)
+			gb.AddScalarInPlace(deriv * gyData[i])
 		}
 		r.beta.AccGrad(gb)
 	}
-- 
2.43.0


From 0dcf4e1e00162774fce4631d7e367efead4127e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 07/37] fix: Reshape and Transpose reject gradients of which
 one dimension is wrong

---
 mat/gradfn/reshape.go   | 2 +-
 mat/gradfn/transpose.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/reshape.go b/mat/gradfn/reshape.go
index b38eef6..e9a0b44 100644
--- a/mat/gradfn/reshape.go
+++ b/mat/gradfn/reshape.go
@@ -39,7 +39,7 @@ func (r *Reshape[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *Reshape[O]) Backward(gy mat.Tensor) error {
-	if gy.Shape()[1] != r.cols && gy.Shape()[0] != r.rows {
+	if gy.Shape()[1] != r.cols || gy.Shape()[0] != r.rows {
 		return fmt.Errorf("fn: matrices with not compatible size")
 	}
 	if r.x.RequiresGrad() {
diff --git a/mat/gradfn/transpose.go b/mat/gradfn/transpose.go
index 572bd31..bc0b7eb 100644
--- a/mat/gradfn/transpose.go
+++ b/mat/gradfn/transpose.go
@@ -34,7 +34,7 @@ func (r *Transpose[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *Transpose[O]) Backward(gy mat.Tensor) error {
-	if r.x.Value().Shape()[1] != gy.Shape()[0] && r.x.Value().Shape()[0] != gy.Shape()[1] {
+	if r.x.Value().Shape()[1] != gy.Shape()[0] || r.x.Value().Shape()[0] != gy.Shape()[1] {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 	if r.x.RequiresGrad() {
-- 
2.43.0


From c4b406433df84995ff36933d2c5c9cb1795b9917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 08/37] fix: Softmax backward accepts the gradient of a row
 vector

---
 mat/gradfn/softmax.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mat/gradfn/softmax.go b/mat/gradfn/softmax.go
index cc4060c..fdce14a 100644
--- a/mat/gradfn/softmax.go
+++ b/mat/gradfn/softmax.go
@@ -36,7 +36,7 @@ func (r *Softmax[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *Softmax[O]) Backward(gy mat.Tensor) error {
-	if !mat.SameDims(r.x.Value(), gy) {
+	if !(mat.IsVector(gy) && r.x.Value().Size() == gy.Size()) {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 	if r.x.RequiresGrad() {
@@ -50,8 +50,8 @@ func (r *Softmax[O]) Backward(gy mat.Tensor) error {
 			vCol := y.ScalarAt(col).F64()
 			return -(vRow * vCol)
 		})))
-		gx := jb.Mul(gy.(mat.Matrix))
-		r.x.AccGrad(gx)
+		gx := jb.Mul(gy.(mat.Matrix).Reshape(n, 1))
+		r.x.AccGrad(gx.ReshapeInPlace(r.x.Value().Shape()...))
 	}
 	return nil
 }
-- 
2.43.0


From f0c930898d0feee97bb63dbe707d1c22d16e5ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 09/37] fix: gradients of Concat keep the shape of the operands

---
 mat/gradfn/concat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/concat.go b/mat/gradfn/concat.go
index 2c51eb6..689ead2 100644
--- a/mat/gradfn/concat.go
+++ b/mat/gradfn/concat.go
@@ -46,7 +46,7 @@ func (r *Concat[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *Concat[O]) Backward(gy mat.Tensor) error {
-	if r.ySize != gy.Size() {
+	if !mat.IsVector(gy) || r.ySize != gy.Size() {
 		return fmt.Errorf("fn: vectors with not compatible size: %d != %d", r.ySize, gy.Size())
 	}
 	sizes := make([]int, len(r.xs))
@@ -56,7 +56,7 @@ func (r *Concat[O]) Backward(gy mat.Tensor) error {
 	xs := r.xs
 	for i, gx := range gy.(mat.Matrix).SplitV(sizes...) {
 		if xs[i].RequiresGrad() {
-			xs[i].AccGrad(gx)
+			xs[i].AccGrad(gx.ReshapeInPlace(xs[i].Value().Shape()...))
 		}
 	}
 	return nil
-- 
2.43.0


From 16eaf654ea3ac125a76365c39191bf98262918e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 10/37] fix: ColView and RowView backward accept vectors only,
 in either orientation

---
 mat/gradfn/colview.go | 2 +-
 mat/gradfn/rowview.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mat/gradfn/colview.go b/mat/gradfn/colview.go
index 827eae0..69c5172 100644
--- a/mat/gradfn/colview.go
+++ b/mat/gradfn/colview.go
@@ -39,7 +39,7 @@ func (r *ColView[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *ColView[O]) Backward(gy mat.Tensor) error {
-	if !(r.x.Value().Shape()[0] == gy.Size()) {
+	if !(mat.IsVector(gy) && r.x.Value().Shape()[0] == gy.Size()) {
 		return fmt.Errorf("fn: the number of rows of the input matrix must be equal to the number of rows of the gradient")
 	}
 	if r.x.RequiresGrad() {
diff --git a/mat/gradfn/rowview.go b/mat/gradfn/rowview.go
index 714e44e..3c32f64 100644
--- a/mat/gradfn/rowview.go
+++ b/mat/gradfn/rowview.go
@@ -39,13 +39,13 @@ func (r *RowView[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *RowView[O]) Backward(gy mat.Tensor) error {
-	if !(r.x.Value().Shape()[1] == gy.Size()) {
+	if !(mat.IsVector(gy) && r.x.Value().Shape()[1] == gy.Size()) {
 		return fmt.Errorf("fn: matrices with not compatible size")
 	}
 	if r.x.RequiresGrad() {
 		gx := r.x.Value().(mat.Matrix).ZerosLike()
 		for j := 0; j < r.x.Value().Shape()[1]; j++ {
-			gx.SetScalar(gy.(mat.Matrix).ScalarAt(0, j), r.i, j)
+			gx.SetScalar(gy.(mat.Matrix).ScalarAt(j), r.i, j)
 		}
 		r.x.AccGrad(gx)
 	}
-- 
2.43.0


From 0048dec514d7b988afc5bb9a64cd50029d1651c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 11/37] fix: RotateR by zero or by the whole size, gradients of
 another shape

---
 mat/gradfn/rotater.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mat/gradfn/rotater.go b/mat/gradfn/rotater.go
index b52ce2f..4916ddb 100644
--- a/mat/gradfn/rotater.go
+++ b/mat/gradfn/rotater.go
@@ -4,7 +4,11 @@
 
 package gradfn
 
-import "github.com/nlpodyssey/spago/mat"
+import (
+	"fmt"
+
+	"github.com/nlpodyssey/spago/mat"
+)
 
 // RotateR is a function to perform a right circular shift of a vector.
 type RotateR[O mat.Tensor] struct {
@@ -34,6 +38,9 @@ func (r *RotateR[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *RotateR[O]) Backward(gy mat.Tensor) error {
+	if !mat.SameDims(r.x.Value(), gy) {
+		return fmt.Errorf("fn: matrices have incompatible dimensions")
+	}
 	if r.x.RequiresGrad() {
 		gx := rotate(gy.(mat.Matrix), r.i)
 		r.x.AccGrad(gx)
@@ -43,6 +50,9 @@ func (r *RotateR[O]) Backward(gy mat.Tensor) error {
 
 func rotate(m mat.Matrix, i int) mat.Matrix {
 	size := m.Size()
+	if i == 0 || i == size {
+		return m.Clone()
+	}
 	left := m.Slice(0, 0, i, 1)
 	right := m.Slice(i, 0, size, 1)
 	return m.NewConcatV(right, left)
-- 
2.43.0


From b339f636406df5025c4dade83eeab45900cd9740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 12/37] fix: MaxPooling of non-positive values and of
 non-square windows

---
 mat/gradfn/maxpooling.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/maxpooling.go b/mat/gradfn/maxpooling.go
index 978edc2..620c8e5 100644
--- a/mat/gradfn/maxpooling.go
+++ b/mat/gradfn/maxpooling.go
@@ -5,6 +5,7 @@
 package gradfn
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/nlpodyssey/spago/mat"
@@ -52,11 +53,11 @@ func (r *MaxPooling[O]) Forward() (mat.Tensor, error) {
 
 	for row := 0; row < r.y.Shape()[0]; row++ {
 		for col := 0; col < r.y.Shape()[1]; col++ {
-			maximum := math.SmallestNonzeroFloat64
+			maximum := math.Inf(-1)
 
 			maxRows := (row * r.rows) + r.rows
 			for i := row * r.rows; i < maxRows; i++ {
-				maxCols := (col * r.cols) + r.rows
+				maxCols := (col * r.cols) + r.cols
 				for j := col * r.cols; j < maxCols; j++ {
 					// FIXME: avoid casting to specific type
 					val := xv.ScalarAt(i, j).F64()
@@ -88,6 +89,9 @@ func makeIntMatrix(indices []int) [][]int {
 
 // Backward computes the backward pass.
 func (r *MaxPooling[O]) Backward(gy mat.Tensor) error {
+	if !mat.SameDims(r.y, gy) {
+		return fmt.Errorf("fn: matrices have incompatible dimensions")
+	}
 	if r.x.RequiresGrad() {
 		gx := r.x.Value().(mat.Matrix).ZerosLike()
 		for row := 0; row < r.y.Shape()[0]; row++ {
-- 
2.43.0


From 4a7d263f255bf2f08f5025fbe2ec6ba5c93f4a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 13/37] fix: ScalarMax of non-positive values

---
 mat/gradfn/scalarmax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/gradfn/scalarmax.go b/mat/gradfn/scalarmax.go
index 3de6fd9..5fc4165 100644
--- a/mat/gradfn/scalarmax.go
+++ b/mat/gradfn/scalarmax.go
@@ -37,7 +37,7 @@ func (r *ScalarMax[O]) Forward() (mat.Tensor, error) {
 	for i, x := range r.xs {
 		// FIXME: avoid casting to specific type
 		val := x.Value().Item().F64()
-		if val > max {
+		if i == 0 || val > max {
 			max = val
 			argmax = i
 		}
-- 
2.43.0


From 4b8473765b88c964423a045fd1d2715e4eeff407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 14/37] fix: SparseMax of small values is not clipped at their
 maximum

---
 mat/gradfn/sparsemax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/gradfn/sparsemax.go b/mat/gradfn/sparsemax.go
index 8c8a85e..1b6f451 100644
--- a/mat/gradfn/sparsemax.go
+++ b/mat/gradfn/sparsemax.go
@@ -39,7 +39,7 @@ func (r *SparseMax[O]) Forward() (mat.Tensor, error) {
 
 	_, _, _, tau := sparseMaxCommon(v)
 
-	v.SubScalarInPlace(tau).ClipInPlace(0, xMax)
+	v.SubScalarInPlace(tau).ClipInPlace(0, 1)
 
 	r.y = v
 	return v, nil
-- 
2.43.0


From e98d9bd3653c0b2d67c22b97237095e719f36eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 15/37] fix: SparseMaxLoss rejects gradients of another shape

---
 mat/gradfn/sparsemax_loss.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mat/gradfn/sparsemax_loss.go b/mat/gradfn/sparsemax_loss.go
index 4a1ca93..c689e83 100644
--- a/mat/gradfn/sparsemax_loss.go
+++ b/mat/gradfn/sparsemax_loss.go
@@ -5,6 +5,7 @@
 package gradfn
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/nlpodyssey/spago/mat"
@@ -55,6 +56,9 @@ func (r *SparseMaxLoss[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *SparseMaxLoss[O]) Backward(gy mat.Tensor) error {
+	if !(mat.IsVector(gy) && r.x.Value().Size() == gy.Size()) {
+		return fmt.Errorf("fn: matrices have incompatible dimensions")
+	}
 	if r.x.RequiresGrad() {
 		tau := r.tau
 		gySum := gy.(mat.Matrix).Sum().Item().F64()
-- 
2.43.0


From 70cdbcd095aee7e64a3c9af654570177121c9260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 16/37] fix: Stack and AppendRows reject gradients of another
 shape with an error

---
 mat/gradfn/appendrows.go | 10 +++++++---
 mat/gradfn/stack.go      |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mat/gradfn/appendrows.go b/mat/gradfn/appendrows.go
index a900581..68456cb 100644
--- a/mat/gradfn/appendrows.go
+++ b/mat/gradfn/appendrows.go
@@ -4,7 +4,11 @@
 
 package gradfn
 
-import "github.com/nlpodyssey/spago/mat"
+import (
+	"fmt"
+
+	"github.com/nlpodyssey/spago/mat"
+)
 
 // AppendRows is a Function which appends new tail rows to a matrix.
 type AppendRows[O mat.Tensor] struct {
@@ -41,8 +45,8 @@ func (a *AppendRows[O]) Forward() (mat.Tensor, error) {
 // Backward computes the backward pass.
 func (a *AppendRows[O]) Backward(gy mat.Tensor) error {
 	xVal := a.x.Value()
-	if gy.Shape()[0] != xVal.Shape()[0]+len(a.vs) {
-		panic("fn: matrices have incompatible dimensions")
+	if gy.Shape()[0] != xVal.Shape()[0]+len(a.vs) || gy.Shape()[1] != xVal.Shape()[1] {
+		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 
 	xRows := xVal.Shape()[0]
diff --git a/mat/gradfn/stack.go b/mat/gradfn/stack.go
index 38f92f7..a45ccb5 100644
--- a/mat/gradfn/stack.go
+++ b/mat/gradfn/stack.go
@@ -40,7 +40,7 @@ func (r *Stack[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *Stack[O]) Backward(gy mat.Tensor) error {
-	if gy.Shape()[0] != len(r.xs) {
+	if gy.Shape()[0] != len(r.xs) || gy.Shape()[1] != r.xs[0].Value().Size() {
 		return fmt.Errorf("fn: matrices with not compatible size")
 	}
 
-- 
2.43.0


From c0d66557c290d92a031d0b13e8e079d66415e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 17/37] fix: DivScalar, Affine, MulT and At reject gradients of
 another shape with an error

---
 mat/gradfn/affine.go    | 3 +++
 mat/gradfn/at.go        | 5 +++++
 mat/gradfn/divscalar.go | 4 +++-
 mat/gradfn/mult.go      | 7 ++++---
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/mat/gradfn/affine.go b/mat/gradfn/affine.go
index e453720..053b059 100644
--- a/mat/gradfn/affine.go
+++ b/mat/gradfn/affine.go
@@ -81,6 +81,9 @@ func (a *Affine[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (a *Affine[O]) Backward(gy mat.Tensor) error {
+	if gy.Shape()[0] != a.w1.Value().Shape()[0] || gy.Shape()[1] != a.x1.Value().Shape()[1] {
+		return fmt.Errorf("fn: matrices have incompatible dimensions")
+	}
 	if a.b.RequiresGrad() {
 		if !mat.SameDims(a.b.Value().(mat.Matrix), gy.(mat.Matrix)) {
 			return fmt.Errorf("fn: matrices have incompatible dimensions")
diff --git a/mat/gradfn/at.go b/mat/gradfn/at.go
index f640975..7fd3d4c 100644
--- a/mat/gradfn/at.go
+++ b/mat/gradfn/at.go
@@ -5,6 +5,8 @@
 package gradfn
 
 import (
+	"fmt"
+
 	"github.com/nlpodyssey/spago/mat"
 )
 
@@ -34,6 +36,9 @@ func (r *At[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *At[O]) Backward(gy mat.Tensor) error {
+	if !mat.IsScalar(gy) {
+		return fmt.Errorf("fn: the gradient had to be a scalar")
+	}
 	if r.x.RequiresGrad() {
 		dx := r.x.Value().(mat.Matrix).ZerosLike()
 		dx.SetAt(gy.(mat.Matrix), r.indices...)
diff --git a/mat/gradfn/divscalar.go b/mat/gradfn/divscalar.go
index 218cef3..bea30b7 100644
--- a/mat/gradfn/divscalar.go
+++ b/mat/gradfn/divscalar.go
@@ -5,6 +5,8 @@
 package gradfn
 
 import (
+	"fmt"
+
 	"github.com/nlpodyssey/spago/mat"
 )
 
@@ -35,7 +37,7 @@ func (r *DivScalar[O]) Forward() (mat.Tensor, error) {
 // Backward computes the backward pass.
 func (r *DivScalar[O]) Backward(gy mat.Tensor) error {
 	if !mat.SameDims(r.x1.Value().(mat.Matrix), gy.(mat.Matrix)) {
-		panic("fn: matrices have incompatible dimensions")
+		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 	if r.x1.RequiresGrad() {
 		r.x1.AccGrad(gy.(mat.Matrix).ProdScalar(1.0 / r.x2.Value().Item().F64()))
diff --git a/mat/gradfn/mult.go b/mat/gradfn/mult.go
index e03f637..ce188f6 100644
--- a/mat/gradfn/mult.go
+++ b/mat/gradfn/mult.go
@@ -5,6 +5,7 @@
 package gradfn
 
 import (
+	"fmt"
 	"sync"
 
 	"github.com/nlpodyssey/spago/mat"
@@ -36,9 +37,9 @@ func (r *MulT[O]) Operands() []mat.Tensor {
 
 // Backward computes the backward pass.
 func (r *MulT[O]) Backward(gy mat.Tensor) error {
-	//if !(r.x1.Value().Shape()[0] == gy.Shape()[0] && r.x2.Value().Shape()[1] == gy.Shape()[1]) {
-	//	panic("fn: matrices with not compatible size")
-	//}
+	if !(r.x1.Value().Shape()[1] == gy.Shape()[0] && r.x2.Value().Shape()[1] == gy.Shape()[1]) {
+		return fmt.Errorf("fn: matrices with not compatible size")
+	}
 	var wg sync.WaitGroup
 	if r.x1.RequiresGrad() {
 		wg.Add(1)
-- 
2.43.0


From 4deb19671a0ec0f747169686355a1716f0d0f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 18/37] fix: Optimize waits for all the parameter updates
 before returning

---
 optimizers/optimizer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optimizers/optimizer.go b/optimizers/optimizer.go
index 2da4d08..5bb1348 100644
--- a/optimizers/optimizer.go
+++ b/optimizers/optimizer.go
@@ -68,6 +68,7 @@ func (o *Optimizer) Optimize() error {
 		}
 	}
 
+	wg.Wait()
 	close(errCh)
 
 	if err, ok := <-errCh; ok {
-- 
2.43.0


From 0f2a2f261fd093c6a52d2f2578a5ac9682d61fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 19/37] fix: gradient clippers ignore parameters without
 gradients

---
 optimizers/gradclipper/clipper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optimizers/gradclipper/clipper.go b/optimizers/gradclipper/clipper.go
index 95ee09a..2512c06 100644
--- a/optimizers/gradclipper/clipper.go
+++ b/optimizers/gradclipper/clipper.go
@@ -82,6 +82,9 @@ func collectGradients(parameters nn.ParamChannelFunc) []mat.Tensor {
 
 	var allGrads []mat.Tensor
 	for param := range parameters(ctx) {
+		if !param.HasGrad() {
+			continue
+		}
 		allGrads = append(allGrads, param.Grad())
 	}
 	return allGrads
-- 
2.43.0


From 74d60d00baf948ce4d71f7f53f8515d08ba4b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 20/37] fix: the hyperbolic decay never goes below the final
 learning rate

---
 optimizers/decay/hyperbolic/hyperbolic.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optimizers/decay/hyperbolic/hyperbolic.go b/optimizers/decay/hyperbolic/hyperbolic.go
index bdb9fcb..dfb3988 100644
--- a/optimizers/decay/hyperbolic/hyperbolic.go
+++ b/optimizers/decay/hyperbolic/hyperbolic.go
@@ -4,6 +4,8 @@
 
 package hyperbolic
 
+import "math"
+
 // Hyperbolic defines an hyperbolic decay depending on the time step
 //
 //	lr = lr / (1 + rate*t).
@@ -28,7 +30,7 @@ func New(init, final, rate float64) *Hyperbolic {
 // Decay calculates the decay of the learning rate lr at time t.
 func (d *Hyperbolic) Decay(lr float64, t int) float64 {
 	if t > 1 && d.rate > 0.0 && lr > d.final {
-		return d.init / (1.0 + d.rate*float64(t))
+		return math.Max(d.final, d.init/(1.0+d.rate*float64(t)))
 	}
 	return lr
 }
-- 
2.43.0


From 6eef95dba9eaa09e0bb7e2e977206b99084169bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 21/37] fix: the exponential decay stays at the final learning
 rate after the last step

---
 optimizers/decay/exponential/exponential.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optimizers/decay/exponential/exponential.go b/optimizers/decay/exponential/exponential.go
index 0b6a327..f7c60c7 100644
--- a/optimizers/decay/exponential/exponential.go
+++ b/optimizers/decay/exponential/exponential.go
@@ -30,6 +30,9 @@ func New(init, final float64, iter int) *Exponential {
 // Decay calculates the decay of the learning rate lr at time t.
 func (d *Exponential) Decay(lr float64, t int) float64 {
 	if t > 1 && lr > d.final {
+		if t >= d.times {
+			return d.final
+		}
 		return math.Exp((float64(d.times-t)*math.Log(lr) + math.Log(d.final)) / float64(d.times-t+1))
 	}
 	return lr
-- 
2.43.0


From 92a0f98f0483648685d819930a273fc86b6bd962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 22/37] fix: AccGrad accepts a first gradient of the other
 floating-point type

---
 mat/dense_grad.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mat/dense_grad.go b/mat/dense_grad.go
index 8371618..342dd49 100644
--- a/mat/dense_grad.go
+++ b/mat/dense_grad.go
@@ -22,7 +22,9 @@ func (d *Dense[T]) AccGrad(grad Tensor) {
 	d.gradMu.Lock()
 	defer d.gradMu.Unlock()
 	if d.grad == nil {
-		d.grad = grad.(Matrix).Clone().(*Dense[T])
+		g := NewDense[T](WithShape(grad.Shape()...))
+		g.Copy(grad.(Matrix))
+		d.grad = g
 		return
 	}
 	d.grad.AddInPlace(grad.(Matrix))
-- 
2.43.0


From fc27f82cf74126683b8e4dcf5250f1cd44194df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 23/37] fix: back-propagation no longer waits forever for
 operands that receive no gradient

---
 ag/operator.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/ag/operator.go b/ag/operator.go
index 49e2ce4..9eaba71 100644
--- a/ag/operator.go
+++ b/ag/operator.go
@@ -226,9 +226,12 @@ func (o *Operator) ZeroGrad() {
 // AccGrad accumulates the gradients to the node itself.
 func (o *Operator) AccGrad(grad mat.Tensor) {
 	o.Value().AccGrad(grad)
+}
 
-	// Don't decrement the counter if the backward pass is not running.
-	if !o.isBackwardIdle() && atomic.AddInt64(&o.pendingGrads, -1) == 0 {
+// gradDone reports that one of the dependents of the operator completed its
+// backward step, whether or not it accumulated gradients on the operator.
+func (o *Operator) gradDone() {
+	if atomic.AddInt64(&o.pendingGrads, -1) == 0 {
 		close(o.broadcastGrad) // notify all goroutines that have been waiting for the gradients
 	}
 }
@@ -243,6 +246,9 @@ func (o *Operator) assignOutputGradient() error {
 
 	if o.Value().Size() == 1 {
 		o.AccGrad(o.Value().(mat.Matrix).NewScalar(1.))
+		if !o.isBackwardIdle() {
+			o.gradDone()
+		}
 		return nil
 	}
 
@@ -287,9 +293,10 @@ func (o *Operator) processBackwardPass(wg *sync.WaitGroup) {
 func (o *Operator) executeBackward(wg *sync.WaitGroup) {
 	defer wg.Done()
 	defer o.setBackwardIdle()
+	defer o.operandsGradDone()
 
 	grad := o.Grad() // wait until the accumulated gradients are ready
-	if grad == nil {
+	if isNil(grad) {
 		return // no gradients to propagate
 	}
 
@@ -298,6 +305,16 @@ func (o *Operator) executeBackward(wg *sync.WaitGroup) {
 	}
 }
 
+// operandsGradDone releases the operands that were waiting for the backward
+// step of the operator.
+func (o *Operator) operandsGradDone() {
+	for _, operand := range o.Operands() {
+		if oo, ok := operand.(*Operator); ok && oo.RequiresGrad() {
+			oo.gradDone()
+		}
+	}
+}
+
 func (o *Operator) isBackwardIdle() bool {
 	return atomic.LoadUint32(&o.backwardState) == idle
 }
-- 
2.43.0


From b0ec980aa2dd8da138eab9ea8eeda6e282dd1903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 24/37] fix: Backward prepares nothing when the gradients of an
 output are missing

---
 ag/backward.go | 11 ++++++++---
 ag/operator.go | 25 +++++++++++++------------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/ag/backward.go b/ag/backward.go
index 484a0f3..0dd34be 100644
--- a/ag/backward.go
+++ b/ag/backward.go
@@ -26,6 +26,13 @@ func Backward(xs ...mat.Tensor) error {
 		return nil
 	}
 
+	// Nothing must be prepared, nor assigned, if the gradients of any tensor are missing.
+	for _, op := range ops {
+		if err := op.checkOutputGradient(); err != nil {
+			return err
+		}
+	}
+
 	// The three for loops below are intentionally executed in sequence.
 	// These steps must occur in this order, so the loops cannot be combined due to their sequential dependencies.
 
@@ -36,9 +43,7 @@ func Backward(xs ...mat.Tensor) error {
 
 	// 2. Assign the output gradients for each operator.
 	for _, op := range ops {
-		if err := op.assignOutputGradient(); err != nil {
-			return err
-		}
+		op.assignOutputGradient()
 	}
 
 	// 3. Process the backward pass for each operator in parallel using wait groups.
diff --git a/ag/operator.go b/ag/operator.go
index 9eaba71..6379553 100644
--- a/ag/operator.go
+++ b/ag/operator.go
@@ -236,23 +236,24 @@ func (o *Operator) gradDone() {
 	}
 }
 
-func (o *Operator) assignOutputGradient() error {
-	grad := o.Value().Grad()
+// checkOutputGradient returns an error if the operator is not a scalar and has no gradients.
+func (o *Operator) checkOutputGradient() error {
+	if o.Value().Size() != 1 && isNil(o.Value().Grad()) {
+		return fmt.Errorf("ag: missing gradient for %v", o)
+	}
+	return nil
+}
 
-	if !isNil(grad) {
+func (o *Operator) assignOutputGradient() {
+	if !isNil(o.Value().Grad()) {
 		o.pendingGrads--
-		return nil
+		return
 	}
 
-	if o.Value().Size() == 1 {
-		o.AccGrad(o.Value().(mat.Matrix).NewScalar(1.))
-		if !o.isBackwardIdle() {
-			o.gradDone()
-		}
-		return nil
+	o.AccGrad(o.Value().(mat.Matrix).NewScalar(1.))
+	if !o.isBackwardIdle() {
+		o.gradDone()
 	}
-
-	return fmt.Errorf("ag: missing gradient for %v", o)
 }
 
 func (o *Operator) prepareBackwardPass() {
-- 
2.43.0


From bf6d573b79d56c4ce84337dff986267acb9de0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 25/37] fix: an element that is not a parameter hid the
 parameters after it in slices and maps

---
 nn/traversal.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/nn/traversal.go b/nn/traversal.go
index 90cb188..3288ec2 100644
--- a/nn/traversal.go
+++ b/nn/traversal.go
@@ -88,17 +88,15 @@ func (pt paramsTraversal) walkSyncMap(i *sync.Map, name string) {
 		case int:
 			key = fmt.Sprintf("%d", k)
 		default:
-			return false // skip map if the key is not a string or an int
+			return true // skip the value if the key is not a string or an int
 		}
 
 		name := fmt.Sprintf("%s.%s", name, key)
 		switch reflect.ValueOf(value).Kind() {
 		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(value, name) {
-				return false
-			}
+			pt.walkStructOrPtr(value, name)
 		default:
-			return false // skip
+			// skip
 		}
 		return true
 	})
@@ -110,11 +108,9 @@ func (pt paramsTraversal) walkSlice(v reflect.Value, name string) {
 		p := v.Index(i)
 		switch p.Kind() {
 		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(p.Interface(), name) {
-				return
-			}
+			pt.walkStructOrPtr(p.Interface(), name)
 		default:
-			return // skip
+			// skip
 		}
 	}
 }
@@ -129,17 +125,15 @@ func (pt paramsTraversal) walkMap(v reflect.Value, name string) {
 		case int:
 			key = fmt.Sprintf("%d", k)
 		default:
-			return // skip map if the key is not a string or an int
+			continue // skip the value if the key is not a string or an int
 		}
 
 		name := fmt.Sprintf("%s.%s", name, key)
 		switch mapRange.Value().Kind() {
 		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(mapRange.Value().Interface(), name) {
-				return
-			}
+			pt.walkStructOrPtr(mapRange.Value().Interface(), name)
 		default:
-			return // skip
+			// skip
 		}
 	}
 }
-- 
2.43.0


From aef8dafa82eb49123aa8a2e2327e5aff8a595d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 26/37] fix: parameters shared by several sub-models were
 visited, clipped and updated more than once

---
 nn/model.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/nn/model.go b/nn/model.go
index b3df53e..6156105 100644
--- a/nn/model.go
+++ b/nn/model.go
@@ -35,13 +35,13 @@ func Parameters(m Model) ParamChannelFunc {
 		go func() {
 			defer close(paramChan)
 			paramsTraversal{
-				paramsFunc: func(param *Param) {
+				paramsFunc: once(func(param *Param) {
 					select {
 					case <-ctx.Done():
 						return // Stop sending to the channel if context is done
 					case paramChan <- param:
 					}
-				},
+				}),
 				modelsFunc:       nil,
 				exploreSubModels: true,
 			}.walk(m)
@@ -74,7 +74,7 @@ func StreamParams(params []*Param) ParamChannelFunc {
 // ForEachParam iterate all the parameters of a model also exploring the sub-parameters recursively.
 func ForEachParam(m Model, fn func(param *Param)) {
 	paramsTraversal{
-		paramsFunc:       fn,
+		paramsFunc:       once(fn),
 		modelsFunc:       nil,
 		exploreSubModels: true,
 	}.walk(m)
@@ -83,12 +83,25 @@ func ForEachParam(m Model, fn func(param *Param)) {
 // ForEachParamStrict iterate all the parameters of a model without exploring the sub-models.
 func ForEachParamStrict(m Model, fn func(param *Param)) {
 	paramsTraversal{
-		paramsFunc:       fn,
+		paramsFunc:       once(fn),
 		modelsFunc:       nil,
 		exploreSubModels: false,
 	}.walk(m)
 }
 
+// once returns a function that calls fn the first time it is given a parameter,
+// so that parameters shared by several models are visited once.
+func once(fn func(param *Param)) func(param *Param) {
+	seen := make(map[*Param]struct{})
+	return func(param *Param) {
+		if _, ok := seen[param]; ok {
+			return
+		}
+		seen[param] = struct{}{}
+		fn(param)
+	}
+}
+
 // ZeroGrad set the gradients of all model's parameters (including sub-params) to zeros.
 func ZeroGrad(m Model) {
 	ForEachParam(m, func(param *Param) {
-- 
2.43.0


From 1075845ebf58e3dd0a5b6e0475e18b88715f9df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 27/37] fix: embeddings of a deserialized model panicked when
 receiving gradients

---
 nn/embedding/embedding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nn/embedding/embedding.go b/nn/embedding/embedding.go
index 9652c70..0cd8145 100644
--- a/nn/embedding/embedding.go
+++ b/nn/embedding/embedding.go
@@ -19,6 +19,9 @@ type Embedding struct {
 func (e *Embedding) AccGrad(gx mat.Tensor) {
 	e.m.mu.Lock()
 	defer e.m.mu.Unlock()
+	if e.m.embedGradIdx == nil { // e.g. the model has been deserialized
+		e.m.embedGradIdx = make(map[int]struct{})
+	}
 	e.m.embedGradIdx[e.idx] = struct{}{}
 	e.Param.AccGrad(gx)
 }
-- 
2.43.0


From ef235c27e3f697400aa8ff5156fb526161d846b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 28/37] fix: embeddings whose gradient was cleared by the
 optimizer were still offered and counted

---
 nn/embedding/model.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nn/embedding/model.go b/nn/embedding/model.go
index 4370535..ff57841 100644
--- a/nn/embedding/model.go
+++ b/nn/embedding/model.go
@@ -50,7 +50,9 @@ func New[T float.DType](size int, dim int) *Model {
 // TraverseParams allows embeddings with gradients to be traversed for optimization.
 func (m *Model) TraverseParams(callback func(param *nn.Param)) {
 	for idx := range m.embedGradIdx {
-		callback(m.Weights[idx])
+		if w := m.Weights[idx]; w.HasGrad() { // the gradient may have been cleared by the optimizer
+			callback(w)
+		}
 	}
 }
 
@@ -104,7 +106,13 @@ func (m *Model) checkInput(input []int) error {
 func (m *Model) CountEmbedWithGrad() int {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	return len(m.embedGradIdx)
+	n := 0
+	for idx := range m.embedGradIdx {
+		if m.Weights[idx].HasGrad() { // the gradient may have been cleared by the optimizer
+			n++
+		}
+	}
+	return n
 }
 
 func (m *Model) ZeroGrad() {
-- 
2.43.0


From 99abd9fa77135fc16a451ebd4697299e30a537b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:28 +0000
Subject: [PATCH 29/37] fix: self-attention with a cache passed column
 gradients on as rows, ending the program in the backward pass

---
 nn/attention/selfattention/model.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nn/attention/selfattention/model.go b/nn/attention/selfattention/model.go
index fd2faeb..af0bd27 100644
--- a/nn/attention/selfattention/model.go
+++ b/nn/attention/selfattention/model.go
@@ -86,8 +86,9 @@ func (m *Model) Forward(cache Cache, q, x []mat.Tensor) ([]mat.Tensor, []mat.Ten
 		v := m.Value.Forward(x...)
 
 		if hasCache {
-			pk = ag.AppendRows(cache[0], k...)
-			pv = ag.AppendRows(cache[1], v...)
+			// AppendRows propagates row gradients, so it must be given rows
+			pk = ag.AppendRows(cache[0], ag.Map(ag.T, k)...)
+			pv = ag.AppendRows(cache[1], ag.Map(ag.T, v)...)
 		} else {
 			pk = ag.Stack(k...)
 			pv = ag.Stack(v...)
-- 
2.43.0


From 0f5b58db62872b8acac032fd95ec4d5558fb7915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:28 +0000
Subject: [PATCH 30/37] fix: multi-head attention overwrote the operands of its
 concatenations, breaking the backward pass

---
 nn/attention/multiheadattention/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nn/attention/multiheadattention/model.go b/nn/attention/multiheadattention/model.go
index 546a885..f72b2de 100644
--- a/nn/attention/multiheadattention/model.go
+++ b/nn/attention/multiheadattention/model.go
@@ -96,14 +96,14 @@ func (m *Model) Forward(cache Cache, q, x []mat.Tensor) ([]mat.Tensor, [][]mat.T
 func (m *Model) project(heads [][]mat.Tensor, seqLen int) []mat.Tensor {
 	n := len(heads)
 	buf := make([]mat.Tensor, seqLen*n)
-	concat := buf[:0] // shares the same backing array with buf
+	concat := make([]mat.Tensor, seqLen) // not in buf: ag.Concat keeps its operands there
 
 	for i := 0; i < seqLen; i++ {
 		buf2 := buf[i*n : i*n+n]
 		for j := 0; j < n; j++ {
 			buf2[j] = heads[j][i]
 		}
-		concat = append(concat, ag.Concat(buf2...))
+		concat[i] = ag.Concat(buf2...)
 	}
 	return m.OutputMerge.Forward(concat...)
 }
-- 
2.43.0


From 87e9f2e8ab9ad717ba59478784cb2a2e8e8cba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 31/37] fix: the input activation of the sentence-state LSTM
 multiplied the sentence state with the weights of the input

---
 nn/gnn/slstm/slstm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nn/gnn/slstm/slstm.go b/nn/gnn/slstm/slstm.go
index 27ceb12..f3e6724 100644
--- a/nn/gnn/slstm/slstm.go
+++ b/nn/gnn/slstm/slstm.go
@@ -185,7 +185,7 @@ func (m *Model) computeVg(s *State, prevG mat.Tensor) {
 	s.VfPrevG = ag.Mul(m.CellGate.V, prevG)
 	s.VsPrevG = ag.Mul(m.SentCellGate.V, prevG)
 	s.VoPrevG = ag.Mul(m.OutputGate.V, prevG)
-	s.VuPrevG = ag.Mul(m.InputActivation.U, prevG)
+	s.VuPrevG = ag.Mul(m.InputActivation.V, prevG)
 }
 
 func (m *Model) updateHiddenNodes(s *State, prevH []mat.Tensor, prevC []mat.Tensor, prevG mat.Tensor) ([]mat.Tensor, []mat.Tensor) {
-- 
2.43.0


From e682550e0da8db12f71123629678f4e9fb995070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:52 +0000
Subject: [PATCH 32/37] fix: reading a matrix kept the caller's bytes, and
 panicked or read beyond them when they were truncated

---
 mat/dense_marshaling.go | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/mat/dense_marshaling.go b/mat/dense_marshaling.go
index 84e8dd6..769c867 100644
--- a/mat/dense_marshaling.go
+++ b/mat/dense_marshaling.go
@@ -7,7 +7,6 @@ package mat
 import (
 	"encoding/gob"
 	"fmt"
-	"unsafe"
 
 	flatbuffers "github.com/google/flatbuffers/go"
 	"github.com/nlpodyssey/spago/mat/fbs/dense"
@@ -31,7 +30,16 @@ func (d *Dense[T]) MarshalBinary() ([]byte, error) {
 }
 
 // UnmarshalBinary unmarshals a binary representation of a Dense matrix.
-func (d *Dense[T]) UnmarshalBinary(data []byte) error {
+//
+// The data is copied; an error is returned if it is incomplete.
+func (d *Dense[T]) UnmarshalBinary(data []byte) (err error) {
+	defer func() {
+		// The flatbuffers accessors panic when they go beyond the data.
+		if r := recover(); r != nil {
+			err = fmt.Errorf("mat: invalid dense matrix data: %v", r)
+		}
+	}()
+
 	switch any(T(0)).(type) {
 	case float32:
 		return d.unmarshalBinaryFloat32(data)
@@ -74,14 +82,21 @@ func (d *Dense[T]) unmarshalBinaryFloat32(data []byte) error {
 		return fmt.Errorf("mat: unexpected dtype %v", raw.Dtype())
 	}
 
+	if size := raw.DataLength(); size > len(data)/4 {
+		return fmt.Errorf("mat: invalid dense matrix data: %d elements in %d bytes", size, len(data))
+	}
+
 	d.requiresGrad = raw.RequiresFrad()
 
 	d.shape = make([]int, raw.ShapeLength())
-	for i := 0; i < raw.ShapeLength(); i++ {
+	for i := range d.shape {
 		d.shape[i] = int(raw.Shape(i))
 	}
 
-	d.data = bytesToSlice[T](raw.DataBytes(), raw.DataLength())
+	d.data = make([]T, raw.DataLength())
+	for i := range d.data {
+		d.data[i] = T(raw.Data(i))
+	}
 	return nil
 }
 
@@ -117,20 +132,20 @@ func (d *Dense[T]) unmarshalBinaryFloat64(data []byte) error {
 		return fmt.Errorf("mat: unexpected dtype %v", raw.Dtype())
 	}
 
+	if size := raw.DataLength(); size > len(data)/8 {
+		return fmt.Errorf("mat: invalid dense matrix data: %d elements in %d bytes", size, len(data))
+	}
+
 	d.requiresGrad = raw.RequiresGrad()
 
 	d.shape = make([]int, raw.ShapeLength())
-	for i := 0; i < raw.ShapeLength(); i++ {
+	for i := range d.shape {
 		d.shape[i] = int(raw.Shape(i))
 	}
 
-	d.data = bytesToSlice[T](raw.DataBytes(), raw.DataLength())
-	return nil
-}
-
-func bytesToSlice[T any](b []byte, length int) []T {
-	if len(b) == 0 {
-		return []T{}
+	d.data = make([]T, raw.DataLength())
+	for i := range d.data {
+		d.data[i] = T(raw.Data(i))
 	}
-	return unsafe.Slice((*T)(unsafe.Pointer(&b[0])), length)
+	return nil
 }
-- 
2.43.0


From 027fcf360c63d89ee757af6cff12f5703717ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:53 +0000
Subject: [PATCH 33/37] fix: Bernoulli masks of float32 matrices could contain
 2 (a draw rounded up to 1)

---
 mat/rand/bernulli/bernulli.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/mat/rand/bernulli/bernulli.go b/mat/rand/bernulli/bernulli.go
index 95fff23..6062245 100644
--- a/mat/rand/bernulli/bernulli.go
+++ b/mat/rand/bernulli/bernulli.go
@@ -5,8 +5,6 @@
 package bernulli
 
 import (
-	"math"
-
 	"github.com/nlpodyssey/spago/mat"
 	"github.com/nlpodyssey/spago/mat/float"
 	"github.com/nlpodyssey/spago/mat/rand"
@@ -19,12 +17,11 @@ func Distribution[T float.DType](r, c int, prob T, generator *rand.LockedRand) m
 	dist := uniform.New(0.0, 1.0, generator)
 	for i := 0; i < r; i++ {
 		for j := 0; j < c; j++ {
-			val := T(dist.Next())
-			fl := math.Floor(float64(val))
-			if val < prob {
-				out.SetScalar(float.Interface(fl), i, j)
+			// The comparison is made before the value is rounded to T (possibly up to 1).
+			if dist.Next() < float64(prob) {
+				out.SetScalar(float.Interface(0.0), i, j)
 			} else {
-				out.SetScalar(float.Interface(fl+1), i, j)
+				out.SetScalar(float.Interface(1.0), i, j)
 			}
 		}
 	}
-- 
2.43.0


From 5512f35b285488857f98d5b9a315a962da523ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:55 +0000
Subject: [PATCH 34/37] fix: WeightedChoice could return an index of weight
 zero when the weights sum to less than one

---
 mat/rand/misc.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mat/rand/misc.go b/mat/rand/misc.go
index b6bf3ce..1b72e24 100644
--- a/mat/rand/misc.go
+++ b/mat/rand/misc.go
@@ -42,6 +42,12 @@ func WeightedChoice[T float.DType](dist []T) int {
 			return i
 		}
 	}
+	// The rounded sum of the weights may not exceed the random value.
+	for i := len(dist) - 1; i > 0; i-- {
+		if dist[i] > 0 {
+			return i
+		}
+	}
 	return 0
 }
 
-- 
2.43.0


From 5ea9812160137388129485e3e90f3c7ba79f8b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:57 +0000
Subject: [PATCH 35/37] fix: GetUniqueRandomInt and GetUniqueRandomIndices
 never chose 0, and hung when it was needed

---
 mat/rand/misc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/rand/misc.go b/mat/rand/misc.go
index 1b72e24..72b6bcc 100644
--- a/mat/rand/misc.go
+++ b/mat/rand/misc.go
@@ -57,7 +57,7 @@ func GetUniqueRandomInt(n, max int, valid func(r int) bool) []int {
 	a := make([]int, n)
 	for i := 0; i < n; i++ {
 		r := rand.Intn(max) // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = rand.Intn(max) // Warning: use global rand
 		}
 		a[i] = r
@@ -73,7 +73,7 @@ func GetUniqueRandomIndices(n int, indices []int, valid func(r int) bool) []int
 		// The generic type is irrelevant, since the given generator is nil.
 		// TODO: ugly API of ShuffleInPlace to be refactored
 		r := ShuffleInPlace(indices, nil)[0] // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = ShuffleInPlace(indices, nil)[0] // Warning: use global rand
 		}
 		a[i] = r
-- 
2.43.0


From 1ee3f0b4f133c0d56b68e7ea37dd9b685d1c4520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:23 +0000
Subject: [PATCH 36/37] fix: Apply panicked on models that traverse their
 parameters themselves

---
 nn/traversal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nn/traversal.go b/nn/traversal.go
index 3288ec2..4b12839 100644
--- a/nn/traversal.go
+++ b/nn/traversal.go
@@ -30,7 +30,9 @@ type paramsTraversal struct {
 // walk iterates through all the parameters of m.
 func (pt paramsTraversal) walk(m any) {
 	if m, ok := m.(ParamsTraverser); ok {
-		m.TraverseParams(pt.paramsFunc)
+		if pt.paramsFunc != nil {
+			m.TraverseParams(pt.paramsFunc)
+		}
 		return
 	}
 	forEachField(m, func(field any, name string) {
-- 
2.43.0


From cfbb150e7effd67ee0996f869eacaa396ecce534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:14 +0000
Subject: [PATCH 37/37] fix: derivatives of Swish, SwishB and Mish were NaN or
 0 for large inputs (overflow of exp)

---
 mat/gradfn/misc.go  | 18 +++++++-----------
 mat/gradfn/swish.go |  5 ++---
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/mat/gradfn/misc.go b/mat/gradfn/misc.go
index 6271685..bbbf67e 100644
--- a/mat/gradfn/misc.go
+++ b/mat/gradfn/misc.go
@@ -471,14 +471,13 @@ func swishB(_, _ int, v float64, beta ...float64) float64 {
 
 func swishBDeriv(_, _ int, v float64, beta ...float64) float64 {
 	prod := v * beta[0]
-	exp := math.Exp(prod)
-	return exp * (exp + prod + 1) / ((exp + 1) * (exp + 1))
+	s := 1 / (1 + math.Exp(-prod))
+	return s * (1 + prod*(1-s))
 }
 
 func swishBBetaDeriv(v, beta float64) float64 {
-	prod := v * beta
-	exp := math.Exp(-prod)
-	return (v * v * exp) / ((exp + 1) * (exp + 1))
+	s := 1 / (1 + math.Exp(-v*beta))
+	return v * v * s * (1 - s)
 }
 
 // Reference: "Mish: A Self Regularized Non-Monotonic Neural Activation Function" by Diganta Misra, 2019.
@@ -488,12 +487,9 @@ func mish(_, _ int, v float64) float64 {
 }
 
 func mishDeriv(_, _ int, v float64) float64 {
-	exp := math.Exp(v)
-	exp2 := math.Exp(2 * v)
-	exp3 := math.Exp(3 * v)
-	omega := 4.0*(v+1.0) + 4.0*exp2 + exp3 + exp*(4.0*v+6.0)
-	delta := 2*exp + exp2 + 2.0
-	return exp * (omega / (delta * delta))
+	t := math.Tanh(math.Log(1 + math.Exp(v)))
+	s := 1 / (1 + math.Exp(-v))
+	return t + v*s*(1-t*t)
 }
 
 func gelu(_, _ int, v float64) float64 {
diff --git a/mat/gradfn/swish.go b/mat/gradfn/swish.go
index 46925d6..533d4a7 100644
--- a/mat/gradfn/swish.go
+++ b/mat/gradfn/swish.go
@@ -49,7 +49,6 @@ func (l *Swish[O]) Backward(gy mat.Tensor) error {
 }
 
 func swishDeriv(_, _ int, v float64) float64 {
-	exp := math.Exp(v)
-	expPlusOne := exp + 1
-	return exp * (expPlusOne + v) / (expPlusOne * expPlusOne)
+	s := 1 / (1 + math.Exp(-v))
+	return s * (1 + v*(1-s))
 }
-- 
2.43.0

