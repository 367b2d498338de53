#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":mech,"where":files[0]}]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A matrix's dimensions and its element count always agree",
 "Every matrix that the library creates, returns or modifies has two non-negative dimensions whose product is exactly its number of elements. Constructors reject negative dimensions, more than two dimensions and a backing of the wrong length; no later operation on the matrix or on any other matrix can break the agreement.",
 ["inputs","histories"],"all shapes (including 0 and 1 in either dimension), all element values, all sequences of operations, both precisions",
 "Tests sample a few small shapes per operation and never mutate one matrix while looking at the dimensions of another one created from it.",
 ["mat/dense.go","mat/dense_new.go","mat/matrix.go"],"representation invariant of the dense matrix: len(data)=rows*cols, two dimensions, dimension storage never written through another matrix",
 [("shape","the two dimensions"),("data","row-major elements")])
p("C02","Matrix operations never modify their operands or alias their results",
 "An operation that returns a new matrix leaves the values and the dimensions of the receiver and of every argument unchanged, and the result shares no storage with them, so that a later in-place change of one is never visible in the other. An in-place operation changes only its receiver.",
 ["inputs","histories"],"all operations, all shapes and values, all later in-place operations on either matrix",
 "Tests compare the returned value; almost none re-reads the operands afterwards or mutates the result and re-reads the operand.",
 ["mat/dense.go","mat/dense_new.go","mat/dense_grad.go","mat/matrix.go"],"frame conditions of every matrix method")
p("C03","Element-wise matrix arithmetic equals the scalar operation at each position",
 "Addition, subtraction, product, division, scalar variants, maximum, minimum, absolute value, power, square root, logarithm, exponential, sigmoid, clipping and user-supplied maps produce at every position exactly the scalar operation applied to the operands' elements at that position, with the operands' dimensions. The in-place variants leave in the receiver what the pure variant returns, also when an operand is the receiver itself.",
 ["inputs"],"all shapes, all element values (as real numbers), both precisions, operands aliased or not",
 "Tests use a handful of 1x3 or 2x3 examples; vectorised code has block and tail paths that depend on the length.",
 ["mat/dense.go","mat/mathfunctions.go","mat/internal/matfuncs/"],"per-element postconditions on the dense methods and kernels")
p("C04","Matrix products compute row-by-column sums",
 "The product of an n-by-m and an m-by-p matrix has at row i and column j the sum over k of a(i,k)*b(k,j); the transposed product with a column vector and the dot product are the corresponding sums. Incompatible inner dimensions are rejected.",
 ["inputs"],"all compatible shapes including empty ones, all real element values, both precisions",
 "Tests use fixed small matrices; the implementation chooses different code for one output column, for each precision and for zero elements.",
 ["mat/dense.go","mat/internal/f32/gonum.go","mat/internal/f64/gonum.go","mat/internal/f32/asm32/","mat/internal/f64/asm64/"],"sum postconditions with loop invariants on partial sums")
p("C05","Structural matrix operations put every element in its documented place",
 "Transposing, reshaping, flattening, slicing, extracting rows and columns, ranges, splitting, concatenating, stacking, padding, resizing, appending rows, swapping rows, augmenting and cloning move each element to the position the operation documents, fill new positions with the documented value, and lose or duplicate nothing. Transposing twice, splitting then concatenating, and padding then slicing give back the original.",
 ["inputs"],"all shapes, all valid positions and sizes, all values",
 "Index arithmetic errors show only for particular shapes (non-square, single row, empty); tests sample a few.",
 ["mat/dense.go","mat/matrix.go","mat/dense_new.go"],"index-map postconditions on the structural methods")
p("C06","Reductions agree with their mathematical definition",
 "Sum, maximum, minimum, index of the maximum, cumulative sum, norms, normalisation and softmax return what their definition says for every non-empty input: the maximum bounds every element and is one of them, the reported index is the first place where it occurs, softmax weights are positive, proportional to the exponentials and sum to one. A row vector and a column vector with the same elements give the same values.",
 ["inputs"],"all vectors or matrices of any size, all real element values including all-negative and repeated ones",
 "Tests use short positive vectors; all-negative, tied or one-element inputs are where such loops go wrong.",
 ["mat/dense.go","mat/internal/f32/gonum.go"],"quantified postconditions with loop invariants over the scanned prefix")
p("C07","Invalid indices and incompatible shapes are rejected, never silently accepted",
 "An access, slice, split or structural operation with an index outside the matrix, or a binary operation on operands of incompatible dimensions, panics or returns an error. It never returns data from outside the addressed region and never modifies anything first.",
 ["inputs"],"all index and size arguments (negative, equal to and beyond the limit), all shapes, matrices created over caller-provided storage",
 "Tests check one or two bad arguments per operation; the boundary cases and storage with spare capacity are not sampled.",
 ["mat/dense.go","mat/matrix.go","mat/dense_new.go"],"'panics exactly when' clauses of the matrix methods")
p("C08","Accumulated gradients are the sum of everything received since the last reset",
 "After any sequence of accumulations the gradient of a matrix, parameter or graph node is the element-wise sum of the gradients it received since it was last zeroed, it reports having a gradient exactly when it received one, and zeroing removes it. The gradients given by the caller are neither modified nor retained.",
 ["inputs","histories"],"all gradients, all interleavings of accumulate, read and zero",
 "Tests accumulate twice with fixed values and do not look at the caller's gradient afterwards.",
 ["mat/dense_grad.go","ag/operator_tensor.go","ag/operator.go","nn/param.go"],"contract of gradient accumulation over an abstract gradient value",
 [("grad","accumulated gradient or none")])
p("C09","Every differentiable operator computes its documented function",
 "For every operator of the automatic differentiation library the forward result has the documented dimensions and at each position the documented function of the operands' values. Operators neither modify their operands nor depend on anything else.",
 ["inputs"],"all operators, all operand shapes they accept, all real values including negative, zero and tied ones",
 "Operator tests use one fixed example each.",
 ["mat/gradfn/"],"postcondition of Forward of each operator")
p("C10","Every operator's backward pass is the transpose of its derivative",
 "For every differentiable operator and every incoming gradient, the gradient delivered to each operand is, at each position, the sum over outputs of the incoming gradient times the partial derivative of that output with respect to that operand element. When one value is used as several operands it receives the sum of the contributions.",
 ["inputs"],"all operators, all operand shapes and values where the function is differentiable, all incoming gradients, operands repeated or distinct",
 "Each operator is tested on one example with hand-computed numbers, mostly column vectors with positive entries.",
 ["mat/gradfn/"],"postcondition of Backward of each operator over the ghost gradient of the operands")
p("C11","Gradients go only to operands that require them, with the operand's dimensions",
 "A backward pass of an operator delivers a gradient to an operand exactly when the operand requires gradients, and the delivered gradient has exactly the operand's dimensions. An incoming gradient whose dimensions do not match the operator's result is reported as an error and nothing is delivered.",
 ["inputs"],"all operators, all operand shapes (row, column, matrix), all combinations of operands requiring gradients",
 "Tests have all operands requiring gradients and mostly column vectors; wrong-shape gradients are sampled for a few operators.",
 ["mat/gradfn/"],"postconditions on delivered shape and on the set of operands reached")
p("C12","Activation functions match their mathematical definition and derivative",
 "Each scalar activation (ReLU, leaky ReLU, ELU, CELU, SELU, softplus, softshrink, threshold, swish, mish, GELU, hard sigmoid, hard tanh, sigmoid, tanh and so on) equals its published piecewise definition for every input and parameter, and the derivative used in the backward pass is the derivative of that definition on every piece.",
 ["inputs"],"all real inputs and parameter values, every branch and both sides of every threshold",
 "Tests evaluate a few points and skip most branch boundaries and negative parameters.",
 ["mat/gradfn/misc.go","mat/gradfn/"],"spec functions over the reals for each activation and its symbolic derivative")
p("C13","Backpropagation visits each operator once, after all of its consumers",
 "A backward pass from one or more outputs runs the backward function of every reachable operator that requires gradients exactly once, only after every consumer of its result that takes part in the pass has delivered its gradient, so each leaf ends with the sum over all paths. Running further passes over the same or other graphs is unaffected by earlier ones.",
 ["programs","schedules"],"all operator graphs (shared sub-expressions, several outputs, diamonds, repeated operands), all completion orders",
 "Tests build a few small graphs and cannot enumerate the completion orders.",
 ["ag/operator.go","ag/backward.go","ag/operator_tensor.go"],"counter of pending consumers per operator",
 [("pendingGrads","consumers of an operator that have not delivered yet")])
p("C14","Optimizers apply exactly their documented update rule",
 "For every optimizer, one step changes each parameter by the update rule the optimizer documents, computed from its current value, its gradient and the optimizer state, and updates that state by the rule's recurrences (moment estimates, bias correction, momentum, weight decay). The parameter's gradient is cleared; no other value changes.",
 ["inputs","histories"],"all parameter and gradient values, all hyper-parameters in their legal range, every step number of a history",
 "Tests check the first one or two steps with fixed hyper-parameters.",
 ["optimizers/sgd/sgd.go","optimizers/adam/adam.go","optimizers/radam/radam.go","optimizers/adagrad/adagrad.go","optimizers/rmsprop/rmsprop.go","optimizers/lamb/lamb.go"],"postcondition of the parameter update over old state")
p("C15","An optimization step is complete when it returns",
 "When an optimization step returns without error, every parameter with an accumulated gradient has been updated exactly once and its gradient cleared, and parameters without a gradient are untouched. An error of the update of any parameter is returned to the caller, and the step never panics for that reason.",
 ["schedules","fault_sequences","inputs"],"all sets of parameters, all completion orders of the concurrent updates, failures of any subset of updates",
 "Tests run with few parameters, for which the updates happen to finish first, and no test makes an update fail.",
 ["optimizers/optimizer.go"],"join of the per-parameter workers before returning")
p("C16","Gradient clipping bounds gradients and nothing else",
 "Clipping by value leaves every gradient element within the configured interval and unchanged if it already was; clipping by norm leaves the global norm at most the configured maximum by scaling all gradients with one common factor not above one, and leaves them unchanged if the norm is within the bound. Parameters without gradients are ignored and parameter values never change.",
 ["inputs"],"all sets of parameters with and without gradients, all gradient values, all limits",
 "Tests use one or two parameters, all with gradients.",
 ["optimizers/gradclipper/clipper.go","mat/dense.go"],"postconditions of the clippers over all parameters' gradients")
p("C17","Learning-rate schedules stay within their bounds and follow their formula",
 "Each decay schedule returns the configured formula of the initial rate and the step, never increases with the step, and never goes below the configured final rate where one is configured.",
 ["inputs"],"all initial rates, final rates, decay rates and step numbers in the documented ranges",
 "Tests evaluate a few steps of one configuration.",
 ["optimizers/decay/"],"postconditions of the decay functions")
p("C18","Loss functions equal their definition",
 "Mean absolute error, mean squared error, negative log-likelihood, cross entropy, weighted cross entropy, focal loss, spherical-simplex style losses and sequence losses return the value of their definition for every prediction and target, reduced over the sequence as requested. Using them never changes predictions or targets.",
 ["inputs"],"all predictions, targets, class indices and weights; sequences of every length",
 "Tests use one example each with three classes.",
 ["losses/losses.go"],"composition of operator contracts")
p("C19","CRF decoding returns a best-scoring label sequence",
 "For every table of emission and transition scores, the decoded sequence has one label per token and a score that no other sequence exceeds, where the score includes the start and end transitions. The loss is the log of the sum of exponentiated scores over all sequences minus the score of the target.",
 ["inputs"],"all sequence lengths, label counts, emission and transition scores (including all-negative ones)",
 "The number of label sequences is exponential; tests check one fixed table.",
 ["nn/crf/viterbi.go","nn/crf/crf.go"],"dynamic-programming recurrence with best-prefix invariants")
p("C20","Attention attends only to permitted positions with softmax weights",
 "Scaled dot-product attention returns for each query the average of the values weighted by the softmax of the scaled key products; with causal masking a query's result does not depend on later positions. Multi-head attention applies this per head, projects each position's concatenated heads in head order, and keeps one output per query.",
 ["inputs"],"all sequence lengths, dimensions, numbers of heads, with and without causal mask and cache",
 "Tests use two or three fixed tokens and compare with stored numbers.",
 ["nn/attention/"],"composition of operator contracts over positions and heads")
p("C21","Convolution and pooling cover exactly the intended windows",
 "Each output element of a convolution is the bias plus the sum of the products of the kernel with the input window at the corresponding stride offset, and each output of max pooling is the largest element of its window; the number of outputs follows from the sizes and strides. The pooling gradient goes to the element that was selected.",
 ["inputs"],"all input sizes, kernel sizes, strides, channel counts; windows with all-negative values and non-square windows",
 "Tests use one square size with positive data.",
 ["mat/gradfn/maxpooling.go","nn/convolution/","nn/pooling/pooling.go"],"window index postconditions")
p("C22","Recurrent layers produce one output per input in order",
 "Recurrent layers return one state per input, computed by the cell's published equations from that input and the previous state, beginning with the given or zero state. A bidirectional layer merges at each position the forward state at that position with the backward state at that same position.",
 ["inputs"],"all sequence lengths, sizes and parameter values, every merge mode, with and without initial state",
 "Tests use one or two steps and one sequence length.",
 ["nn/recurrent/","nn/birnn/","nn/gnn/slstm/"],"composition of operator contracts with a loop invariant over the sequence")
p("C23","Normalization layers produce the documented normalized output",
 "Each normalization layer returns for every input the documented function: subtracting the mean and dividing by the deviation or root mean square with the configured epsilon, then applying scale and shift. Inputs are processed independently where documented, and batch statistics use the whole batch and update the running averages with the configured momentum.",
 ["inputs"],"all input vectors and batches, all parameter values, training and inference mode",
 "Tests use a fixed three-element example per layer.",
 ["nn/normalization/"],"composition of operator contracts")
p("C24","Parameter traversal visits every parameter of a model exactly once",
 "Traversing a model reaches every parameter held directly, in nested models, slices, maps and embedded structures exactly once each, in a deterministic order for ordered containers, and nothing that is not a parameter. An unsupported or nil element never hides the parameters that come after it.",
 ["programs","configurations"],"all model structures built from the supported containers",
 "Tests traverse a few hand-made models.",
 ["nn/traversal.go","nn/model.go"],"reflection-driven recursive traversal")
p("C25","Serialised matrices and models read back identical",
 "Marshalling a matrix and unmarshalling the bytes gives a matrix of the same precision, dimensions, elements and gradient requirement; dumping a model and loading it into a fresh one restores every parameter. Truncated or failing writes and reads are reported as errors.",
 ["inputs","fault_sequences"],"all shapes, element values (including zero-size), both precisions, writer failures at any point",
 "Tests round-trip a few small matrices and no failing writer or file.",
 ["mat/dense_marshaling.go","mat/fbs/","nn/gob.go","nn/param.go"],"encode/decode pair of the matrix codec")
p("C26","Embedding lookups return and train exactly the selected rows",
 "Looking up an index returns the parameter vector stored for that index, an index outside the table is an error, and the vectors for repeated indices share one gradient. Exactly the embeddings that received gradients are offered to the optimizer, and clearing gradients clears exactly those.",
 ["inputs","histories"],"all table sizes, index sequences with repetitions and out-of-range values, any number of train steps",
 "Tests look up a few indices once.",
 ["nn/embedding/"],"set of touched rows kept in step with their gradients")
p("C27","Random helpers respect their contracts for every generator state",
 "Shuffling in place yields a permutation of its input, weighted choice returns an index whose weight is positive, uniform values stay inside the requested interval, Bernoulli masks contain only the documented values and equal seeds give equal sequences.",
 ["inputs","histories"],"all seeds and generator states, all slice lengths, weights and intervals",
 "Tests compare a few seeds with stored outputs; the edge draws (0 and the largest value below 1) are never sampled.",
 ["mat/rand/","initializers/initializers.go"],"contracts over an arbitrary generator output in its range")
p("C28","Asynchronous execution gives the same values as sequential execution",
 "Operators executed asynchronously yield the same values and gradients as when executed one after the other, for every schedule, and waiting for a value never returns before it is computed and never blocks forever.",
 ["schedules"],"all interleavings of operator goroutines, readers and gradient accumulation",
 "Tests see only the schedules the Go runtime happens to choose.",
 ["ag/operator.go","ag/operator_tensor.go"],"condition variable around the operator's value")
p("C29","Feed-forward layers compute their documented composition",
 "A linear layer returns for each input, in order, the weights times the input plus the bias; highway, squared-distance, flatten, activation, spatial gating, gated-MLP, mixer and dropout layers return the documented composition of their operators with one output per input (one in total for flatten). Applying a layer never changes its inputs or its parameters, and dropout with probability zero is the identity.",
 ["inputs"],"all numbers of inputs (including none), all sizes, parameter values and activation kinds",
 "Tests use one input sequence per layer and compare with stored numbers.",
 ["nn/linear/linear.go","nn/highway/highway.go","nn/activation/activation.go","nn/sqrdist/sqrdist.go","nn/sgu/model.go","nn/gmlp/","nn/mlpmixer/"],"composition of operator contracts over the inputs")
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
