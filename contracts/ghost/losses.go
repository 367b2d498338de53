// Package ghost: client programs of the real code, verified with it.
package ghost

import (
	"github.com/nlpodyssey/spago/losses"
	"github.com/nlpodyssey/spago/mat"
)

func WeightedCrossEntropy(weights mat.Matrix, x mat.Tensor, c int) mat.Tensor {
	return losses.WeightedCrossEntropy(weights)(x, c)
}

func WeightedFocalLoss(weights mat.Matrix, x mat.Tensor, c int, gamma float64) mat.Tensor {
	return losses.WeightedFocalLoss(weights)(x, c, gamma)
}
