#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The list lives here so that it stays reviewable."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

T = "smart_dnn/Tensor/"
p("P01", "Tensors are independent values over any history of operations",
  "A tensor's shape and contents change only through an operation applied to that tensor: copies, assignments, slices, reshapes, arithmetic results and layer inputs never alias one another, and operands of non-mutating operations keep their contents. Self-assignment and in-place arithmetic with itself behave as with an equal copy, and a tensor that was moved from by construction or assignment stays a valid tensor that can be read, copied, overwritten and destroyed. Two tensors compare equal exactly when their shapes and all elements are equal.",
  ["histories", "inputs"],
  "every finite sequence of construct/copy/move/assign/in-place/element-write/compare operations over any number of live tensors of any shape",
  "Aliasing and stale-size faults need a particular sequence (copy, move, write through one handle, read another); unit tests exercise each operation once on fresh tensors and never look at the other live tensors afterwards.",
  [T+"Tensor.hpp", T+"Tensor.impl.hpp", T+"TensorData.hpp", T+"TensorDataCPU.impl.hpp", "smart_dnn/Shape/Shape.hpp"],
  [("copy/move constructors and assignments", T+"Tensor.impl.hpp, "+T+"TensorDataCPU.impl.hpp"), ("operator==", T+"TensorDataCPU.impl.hpp")],
  [("data_", "owned element buffer of one tensor", T+"TensorData.hpp"), ("shape_", "dimensions, element count and strides kept beside the buffer", T+"TensorData.hpp")],
  ["public Tensor API: shape, size, elements of every live tensor after every call"])

p("P02", "Shapes, factories, row-major indexing and reshape are consistent",
  "For every dimension list of positive sizes a tensor holds exactly the product of its dimensions elements in row-major order, flat and multi-index access address the same element, and the factories (fill, zeros, ones, identity, from values) give exactly the documented contents. Reshaping to an equal element count keeps the flat contents and gives exactly the requested dimensions and matching strides; a reshape to another count is rejected and leaves the tensor unchanged. Empty or non-positive dimensions, a wrong number of indices, and out-of-range multi-indices are rejected with an error.",
  ["inputs", "histories"],
  "every shape of any rank, every multi-index, every reshape sequence, including rejected ones",
  "Stride and index arithmetic depends on rank and dimension values; tests touch a few small shapes and do not check that a rejected call leaves state intact.",
  ["smart_dnn/Shape/Shape.hpp", "smart_dnn/Shape/ShapeOperations.hpp", T+"TensorFactory.hpp", T+"TensorDataCPU.impl.hpp"],
  [("calculateStride / computeFlatIndex", "smart_dnn/Shape/Shape.hpp, smart_dnn/Shape/ShapeOperations.hpp"), ("reshape", "smart_dnn/Shape/Shape.hpp"), ("createFill/createIdentity", T+"TensorOperations.hpp")],
  [("_dimensions/_size/_stride", "must stay mutually consistent", "smart_dnn/Shape/Shape.hpp")],
  ["shape(), size(), stride(), at(), operator[] of the public API"])

p("P03", "Element-wise arithmetic follows broadcasting for all shapes",
  "Addition, subtraction, multiplication and division of two tensors give, at every index, the operation applied to the two operands' elements with dimensions aligned at the right and size-1 or missing dimensions repeated; the result's shape is the broadcast shape. Incompatible shapes are rejected with an error. The broadcast rule itself is symmetric in its two shapes and answers the same whether asked as a yes/no question or for the result shape.",
  ["inputs"],
  "every pair of shapes (any ranks, any positions of size-1 dimensions) and all element values",
  "Index mapping under broadcasting depends on the combination of ranks and on which dimensions are 1; tests sample a handful of shape pairs.",
  [T+"TensorOperations.hpp", T+"BroadcastView.hpp", "smart_dnn/Shape/ShapeOperations.hpp", T+"Tensor.impl.hpp"],
  [("broadcastShapes/areBroadcastable", "smart_dnn/Shape/ShapeOperations.hpp"), ("BroadcastView::mapIndex and iterator", T+"BroadcastView.hpp"), ("addImpl, minusImpl, multiplyImpl, divideImpl", T+"TensorOperations.hpp")])

p("P04", "Scalar, unary and in-place arithmetic agree with the pure operations",
  "Tensor-scalar and scalar-tensor arithmetic, negation, square root, element-wise application and reciprocal give the documented real function of every element and keep the shape; dividing a tensor by the scalar zero is rejected with an error. Every in-place form (+=, -=, *=, /= with a tensor or a scalar, apply) leaves in the left operand exactly what the corresponding pure form would return, keeps its shape, and does not touch the right operand. An in-place operation whose operands cannot be combined is rejected and leaves both operands unchanged.",
  ["inputs", "histories"],
  "every element value, scalar, shape pair with the right operand broadcasting into the left, and every sequence of in-place operations",
  "Order-of-operands, aliasing (x op= x) and failure atomicity need unusual inputs; several of the in-place overloads are never instantiated by the tests.",
  [T+"Tensor.impl.hpp", T+"TensorOperations.hpp", T+"AdvancedTensorOperations.hpp"],
  [("operator op=", T+"Tensor.impl.hpp"), ("*InPlace, *Scalar, inverseDivideScalar", T+"TensorOperations.hpp"), ("reciprocal, apply, applyPair", T+"AdvancedTensorOperations.hpp")])

p("P05", "Reductions over any set of axes equal the mathematical reductions",
  "Sum over all elements, over one axis, or over any set of axes, mean over any set of axes and variance about a given mean equal the mathematical reduction with every input element contributing exactly once to the output index obtained by dropping (or, for mean and variance, keeping as size 1) the reduced axes. Reducing all axes gives a single-element tensor of shape (1). An axis outside the tensor's rank is rejected with an error.",
  ["inputs"],
  "every shape of any rank, every subset and order of axes, all element values",
  "Multi-index bookkeeping is correct for some axis subsets and wrong for others; tests use rank 2-3 and few subsets.",
  [T+"AdvancedTensorOperations.hpp", T+"TensorOperations.hpp"],
  [("sum(tensor, axes), incrementIndices", T+"AdvancedTensorOperations.hpp"), ("mean, variance", T+"AdvancedTensorOperations.hpp"), ("sum(tensor, axis)", T+"TensorOperations.hpp")])

p("P06", "Matrix multiplication is correct for every supported rank pair",
  "The product of vectors (dot), matrix and vector, vector and matrix, matrices, 3-D with 2-D in either order and equal-rank batched operands equals the sum of products over the contracted dimension at every output index, with the documented result shape. Operands whose contracted dimensions differ, whose batch dimensions differ, or whose ranks are not a supported combination are rejected with an error instead of giving a result.",
  ["inputs"],
  "every supported pair of ranks and all compatible and incompatible sizes, including size-1 and non-square ones",
  "Each rank pair is a separate loop nest with its own index arithmetic; square or tiny test matrices hide swapped strides.",
  [T+"AdvancedTensorOperations.hpp"],
  [("matmul and its rank-specific helpers", T+"AdvancedTensorOperations.hpp")])

p("P07", "Transposes, slices and strided views select exactly the right elements",
  "Swapping any two axes of a tensor of any rank places each element at its index with those coordinates exchanged, and doing it twice restores the tensor. Fixing one index along any axis of a tensor of rank 2 or more yields the sub-tensor of the remaining axes as an independent copy, and an axis or index out of range is rejected. A strided view with start, end and step per axis (negative bounds counting from the end) enumerates exactly the elements of that half-open range in row-major order, and writing through it changes exactly the addressed element.",
  ["inputs"],
  "every shape, axis pair, axis/index pair, and start/end/step combination",
  "Tests use 2-D and 3-D cases on leading axes; wrong strides only show on inner axes, unequal dimensions, or non-trivial ends and steps.",
  [T+"AdvancedTensorOperations.hpp", T+"SliceView.hpp", T+"BroadcastView.hpp", T+"Tensor.impl.hpp"],
  [("transpose", T+"AdvancedTensorOperations.hpp"), ("slice", T+"Tensor.impl.hpp"), ("SliceView::calculateSlicedShape/mapIndex", T+"SliceView.hpp")])

A = "smart_dnn/Activations/"
p("P08", "Activations compute their documented function for every input",
  "ReLU, leaky ReLU (with its slope), sigmoid, tanh, swish and mish map every finite element, including very large and very small ones, to the value of their documented formula with the accuracy of the element type, never to NaN, and keep the shape. Softmax maps every batch item to non-negative values that sum to one and are invariant under adding a constant to the item, independently of the other batch items, and rejects inputs without a batch dimension.",
  ["inputs"],
  "all finite element values of float and double, all shapes and batch sizes",
  "Overflow, cancellation and precision faults appear only in parts of the input range (saturation, tails); tests sample a few values near zero.",
  [A+x+".hpp" for x in ("ReLU","LeakyReLU","Sigmoid","Tanh","Swish","Mish","Softmax")],
  [("forward of each activation", A)])

p("P09", "Activation backward passes are the exact derivatives",
  "For every activation the backward pass returns, for any input and upstream gradient of the same shape, the upstream gradient multiplied by the exact derivative (the full Jacobian, per batch item, for softmax) of the forward function at that input. It never produces NaN for finite inputs, does not modify its arguments, and at the kink of a piecewise-linear activation returns one of the two one-sided derivatives. Used as a layer, the derivative is taken at the input of that layer's most recent forward pass.",
  ["inputs", "histories"],
  "all finite inputs and upstream gradients, all shapes and batch sizes, any interleaving of forward and backward passes of several activation layers",
  "A wrong derivative still trains and still has the right sign at the sampled points; the tests compare a few values.",
  [A+x+".hpp" for x in ("ReLU","LeakyReLU","Sigmoid","Tanh","Swish","Mish","Softmax")]+["smart_dnn/Layers/ActivationLayer.hpp"],
  [("backward of each activation", A), ("ActivationLayer caches its input", "smart_dnn/Layers/ActivationLayer.hpp")])

L = "smart_dnn/Layers/"; R = "smart_dnn/Regularisation/"
p("P10", "Fully connected layer: affine map and its exact gradients",
  "For any batch the forward pass returns input times weights plus bias (a rank-1 input is one sample and gives a rank-1 result); the backward pass returns the exact gradient with respect to the most recent input, in that input's shape, and stores exact weight and bias gradients summed over the batch. Gradients of one backward pass replace, never add to, those of an earlier one; inputs of the wrong width and backward before forward are rejected; several layer instances do not influence each other.",
  ["inputs", "histories"],
  "all layer sizes, batch sizes, parameter and input values, and all interleavings of forward, backward and update calls over several layers",
  "Gradient accumulation across calls, stale cached inputs and batch reductions need multi-call histories with changing batch sizes; tests run one forward and one backward.",
  [L+"FullyConnectedLayer.hpp", T+"AdvancedTensorOperations.hpp"],
  [("forward/backward/updateWeights", L+"FullyConnectedLayer.hpp")],
  [("input", "input of the most recent forward pass", L+"FullyConnectedLayer.hpp"), ("weightGradients/biasGradients", "gradients of the most recent backward pass", L+"FullyConnectedLayer.hpp")])

p("P11", "2-D convolution: every channel, stride, padding and dilation, exact gradients",
  "For any batch, channel counts, kernel height and width, stride, zero padding and dilation, the forward pass equals the cross-correlation summed over all input channels plus the output channel's bias, with output size (input + 2*padding - dilation*(kernel-1) - 1) / stride + 1 rounded down. The backward pass returns exact gradients for the most recent input, all weights and all biases, summed over the whole batch and replacing earlier ones. Backward before forward is rejected and instances are independent.",
  ["inputs", "configurations", "histories"],
  "all layer configurations, batch sizes, image sizes and values",
  "Tests use one channel, one sample, unit stride and no padding, where dropped channels, batch items or offsets cannot be seen.",
  [L+"Conv2DLayer.hpp"],
  [("forward/backward", L+"Conv2DLayer.hpp")],
  [("input", "input of the most recent forward pass", L+"Conv2DLayer.hpp")])

p("P12", "Max pooling picks window maxima and routes gradients to them",
  "Each output element equals the maximum of its channel's window (window size, stride and padding as configured; padded positions never win), with output size (input + 2*padding - window) / stride + 1 rounded down. The backward pass adds each upstream gradient element to exactly one input position that attains the maximum of that window, accumulating where windows overlap, and is zero elsewhere. Inputs that are not 4-D and backward before forward are rejected.",
  ["inputs", "configurations"],
  "all window/stride/padding configurations, image sizes, batches, channels and values including all-negative windows and ties",
  "Border windows, overlapping windows, negative data and padding interact; there is hardly any test of this layer.",
  [R+"MaxPooling2DLayer.hpp"],
  [("findMaxInPoolWindow, forward, backward", R+"MaxPooling2DLayer.hpp")])

p("P13", "Flatten keeps every element and its backward restores the latest input shape",
  "Flattening keeps the batch dimension and the row-major order of all elements; the backward pass returns the gradient's elements unchanged in the shape of the input of the most recent forward pass, whatever sequence of input shapes was seen before. Inputs without a batch dimension and backward before any forward are rejected.",
  ["inputs", "histories"],
  "all input shapes of rank 2 and more and all sequences of forward and backward calls with changing shapes",
  "The cached shape only goes stale when ranks or batch sizes change between calls.",
  [L+"FlattenLayer.hpp"],
  [("originalShape", L+"FlattenLayer.hpp")],
  [("originalShape", "shape of the most recent forward input", L+"FlattenLayer.hpp")])

p("P14", "Batch normalisation: statistics, running averages and exact gradients",
  "In training mode every feature (2-D input) or channel (4-D input) is normalised with the mean and biased variance of the current batch plus epsilon, then scaled and shifted, and the running mean and variance become momentum*old + (1-momentum)*batch value; in evaluation mode the running values are used and nothing is changed. The backward pass returns the exact gradient through the training-mode normalisation, including the dependence of mean and variance on the input, and exact scale and shift gradients. Inputs of rank other than 2 or 4 and backward before a training forward are rejected.",
  ["inputs", "histories", "configurations"],
  "all feature counts, batch and image sizes, values, epsilon/momentum settings and all sequences of training/evaluation/backward/update calls",
  "Running statistics are the result of a history and only visible in evaluation mode; gradient terms that vanish for special data (zero-mean gradients) hide in sampled tests.",
  [R+"BatchNormalizationLayer.hpp"],
  [("forward/backward", R+"BatchNormalizationLayer.hpp")],
  [("runningMean/runningVariance", "exponential averages used in evaluation", R+"BatchNormalizationLayer.hpp"), ("normalizedInput/batchMean/batchVariance", "cached values of the latest training forward", R+"BatchNormalizationLayer.hpp")])

p("P15", "Dropout: right rate, consistent mask, identity in evaluation",
  "In training mode each element is independently zeroed with the configured probability and otherwise scaled by 1/(1-rate), with a fresh mask on every forward pass; the backward pass applies exactly the mask and scale of the most recent training forward. In evaluation mode forward and backward return their argument unchanged and draw nothing from the random stream. A gradient whose shape does not match the mask, or training-mode backward before forward, is rejected.",
  ["inputs", "histories", "configurations"],
  "all rates in [0,1), shapes, seeds, and sequences of mode switches, forwards and backwards",
  "The mask is random: a test sees one draw; mask/gradient consistency and the drop rate are statements about all draws and histories.",
  [R+"DropoutLayer.hpp", "smart_dnn/RandomEngine.hpp"],
  [("forward/backward", R+"DropoutLayer.hpp")],
  [("mask", "survivors of the latest training forward", R+"DropoutLayer.hpp")])

p("P16", "Loss values and gradients match their definitions and each other",
  "Mean squared error is the mean of squared differences over all elements, and categorical cross-entropy is the batch mean of -sum(target * log(prediction)) with predictions clamped to [1e-7, 1-1e-7]; both return a single-element tensor. Each gradient has the prediction's shape and is the exact derivative of the value with respect to the prediction (evaluated at the clamped prediction for cross-entropy). Predictions and targets of incompatible shapes are rejected; a rank-1 target with one value per batch row is accepted by mean squared error.",
  ["inputs"],
  "all batch sizes, class counts, predictions (including 0 and 1) and targets",
  "No test exercises the losses; value and gradient can each look plausible while being inconsistent.",
  ["smart_dnn/Loss/MSELoss.hpp", "smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp"],
  [("compute/gradient", "smart_dnn/Loss/")])

O = "smart_dnn/Optimizers/"
p("P17", "SGD applies momentum, dampening, Nesterov and weight decay exactly",
  "Over any number of calls each parameter tensor follows the SGD recurrence: gradient plus weightDecay*weight, velocity = momentum*velocity + (1-dampening)*gradient when momentum is non-zero, step by velocity (or gradient + momentum*velocity for Nesterov) times the learning rate. Velocities start at zero and persist between calls.",
  ["histories", "inputs", "configurations"],
  "all option combinations, tensor shapes, gradient sequences and numbers of steps",
  "Tests check the first one or two steps; wrong state handling shows only after several steps or under option combinations.",
  [O+"SGDOptimizer.hpp"], [("updateTensor", O+"SGDOptimizer.hpp")],
  [("momentumBuffers", "velocity per parameter tensor", O+"SGDOptimizer.hpp")])

p("P18", "RMSProp follows its recurrence, plain, centred and with momentum",
  "Over any number of calls each parameter element follows: gradient plus weightDecay*weight; square average = alpha*avg + (1-alpha)*gradient^2; when centred, mean average likewise and denominator sqrt(avg - mean^2 + epsilon), otherwise sqrt(avg + epsilon); update = gradient/denominator, accumulated as momentum*velocity + update when momentum is positive; weight decreases by learning rate times that. The result is finite for all finite gradients, including long runs of equal gradients in centred mode.",
  ["histories", "inputs", "configurations"],
  "all option combinations, tensor shapes, gradient sequences and numbers of steps",
  "State over long histories (and rounding of the centred variance) is out of reach of single-step tests.",
  [O+"RMSPropOptimizer.hpp"], [("updateTensor", O+"RMSPropOptimizer.hpp")],
  [("squaredGrads/meanGrads/velocityBuffers", "state per parameter tensor", O+"RMSPropOptimizer.hpp")])

p("P19", "Adam follows its recurrence with correct bias correction per parameter",
  "Over any number of calls each parameter element follows Adam with gradient divided by the configured batch size: first and second moment averages, each bias-corrected exactly once using the number of updates this parameter tensor has received, and step = learning rate * m_hat / (sqrt(v_hat) + epsilon), plus learning rate times the L1 (sign) and L2 (weight) terms. With decay d the learning rate at a tensor's t-th update is initial/(1 + d*t). Large tensors and small ones follow the same rule.",
  ["histories", "inputs", "configurations"],
  "all option combinations, tensor shapes and sizes, gradient sequences and numbers of steps and of parameter tensors",
  "There is no Adam test in the suite; bias correction errors are invisible without a step-by-step oracle over several parameters.",
  [O+"AdamOptimizer.hpp"], [("updateTensor/updateParameter/updateLearningRate", O+"AdamOptimizer.hpp")],
  [("m, v", "moment estimates per parameter tensor", O+"AdamOptimizer.hpp"), ("iterations", "number of updates", O+"AdamOptimizer.hpp")])

p("P20", "Optimizer state is per parameter; overrides and errors leave no trace",
  "For every optimizer, the trajectory of a parameter tensor depends only on its own values and gradients and on the options: updating other tensors in the same or other calls, in any order or grouping, or using other optimizer instances, does not change it. A positive learning-rate override applies to that call only. A call with differing numbers of parameters and gradients is rejected without changing any parameter or state, and gradients are never modified. Assigning new values to a parameter tensor keeps its state, a tensor whose shape has changed starts afresh, and a copy of an optimizer carries on independently of the original.",
  ["histories", "schedules"],
  "all interleavings and groupings of update calls over any number of parameter tensors and optimizer instances",
  "Cross-talk between parameters needs several tensors interleaved over several calls; tests use one tensor and one call.",
  [O+"SGDOptimizer.hpp", O+"RMSPropOptimizer.hpp", O+"AdamOptimizer.hpp", "smart_dnn/Optimizer.hpp"],
  [("state keyed per tensor", O), ("learningRateOverride", O)],
  [("state maps", "optimizer state keyed by parameter identity", O)])

M = ["smart_dnn/SmartDNN.hpp", "smart_dnn/SmartDNN/SmartDNN.impl.hpp"]
p("P21", "The model drives layers, loss and optimizer in the right order",
  "For every sample of every epoch, in order, training runs each layer forward exactly once in the order added, evaluates the loss and its gradient on the last output and that sample's target, runs each layer backward exactly once in reverse order with each layer receiving the gradient its successor returned, and then lets each layer update once with the compiled optimizer. Prediction runs the forward chain only, and predicting a list gives one prediction per input in order; the training/evaluation switch reaches every layer; recompiling replaces loss and optimizer; layers are retrievable in the order added.",
  ["histories", "programs"],
  "all numbers of layers, samples and epochs and all sequences of model calls",
  "No test uses the model class; order and exactly-once are properties of the whole call history.",
  M, [("train/backward/updateWeights/predict", M[1])],
  [("layers", "ordered pipeline", M[0]), ("lossFunction/optimizer", "set by compile", M[0])],
  ["user-defined Layer, Loss and Optimizer subclasses passed through the public API record every call"])

p("P22", "End-to-end training equals reference gradient descent",
  "Training a network of the library's layers with the library's losses and optimizers gives, after any number of samples and epochs, the parameters and predictions that the mathematical composition of forward, backpropagated gradient and optimizer recurrence gives, up to rounding. The loss reported for each epoch is the mean over the epoch's samples of the loss at the parameters in force when each sample was processed.",
  ["programs", "histories", "inputs"],
  "all compositions of compatible layers, losses and optimizers, data sets and numbers of epochs",
  "Each layer can pass its unit tests while the composition is wrong (stale caches, gradients in the wrong shape, optimizer state keyed wrongly).",
  M + [L+"FullyConnectedLayer.hpp", L+"Conv2DLayer.hpp", L+"ActivationLayer.hpp", L+"FlattenLayer.hpp", R+"MaxPooling2DLayer.hpp", R+"BatchNormalizationLayer.hpp"],
  [("train", M[1])])

p("P23", "Evaluation mode: prediction is pure, repeatable and batch-consistent",
  "After switching to evaluation mode, predicting is a function of the input and the learned parameters only: repeating it gives identical results, it changes no parameter or statistic and draws no random numbers, and predictions do not depend on which other inputs were predicted before or share the batch. Switching back to training mode restores training behaviour in every layer.",
  ["histories", "inputs"],
  "all models, inputs, batch compositions and sequences of mode switches, training and prediction",
  "Leaks from prediction into state, or between batch items, only show when predictions are repeated and compared across histories.",
  M + [R+"DropoutLayer.hpp", R+"BatchNormalizationLayer.hpp", "smart_dnn/Layer.hpp"],
  [("setTrainingMode", M[1]), ("trainingMode flag", "smart_dnn/Layer.hpp")])

p("P24", "Seeding makes all randomness reproducible and in range",
  "After setting the same seed, the same sequence of random operations (random tensors, layer construction, dropout masks, direct draws) gives identical values, and a different seed gives different ones; consecutive draws continue one stream instead of repeating it. Range-limited generators never return values outside [min, max], uniform draws lie in [0, 1], and the Xavier and He draws for n inputs have mean 0 and variance 1/n and 2/n.",
  ["histories", "inputs"],
  "all seeds, shapes, ranges and sequences of random operations",
  "Reproducibility is a statement about pairs of histories; a test that fixes one seed and one draw cannot establish it.",
  ["smart_dnn/RandomEngine.hpp", T+"TensorOperations.hpp"],
  [("engine instance", "smart_dnn/RandomEngine.hpp"), ("createRandom", T+"TensorOperations.hpp")],
  [("engine", "single process-wide generator", "smart_dnn/RandomEngine.hpp")])

D = "smart_dnn/Datasets/"
p("P25", "MNIST loader returns exactly the file's images and labels, batched",
  "For well-formed files, whatever the batch size and sample limit, concatenating the returned batches gives exactly the first samples of the files in order, pixels as value/255 and labels one-hot, every batch full except possibly the last, image and label batches of matching sizes. Loading does not depend on earlier loads, and image sizes are taken from the file.",
  ["inputs", "configurations"],
  "all file contents (counts, rows, columns, pixel bytes, labels), batch sizes and sample limits",
  "No test touches the loader; batch-boundary and byte-order faults need particular counts and sizes.",
  [D+"MNistLoader.hpp"], [("loadImages/loadLabels/readInt", D+"MNistLoader.hpp")])

p("P26", "Malformed MNIST files are rejected, never silently completed",
  "A missing file, a wrong magic number, a header cut short, image or label data that ends before the number of samples to be loaded (the requested one, or the announced one when none is requested), or a label above 9 makes loading fail with an error. The loader never returns samples that are not in the file.",
  ["inputs", "fault_sequences"],
  "all truncation points of both files, all wrong magic numbers and label bytes, sample limits beyond the file",
  "Each truncation offset is a different fault; none is tested.",
  [D+"MNistLoader.hpp"], [("loadImages/loadLabels/readInt", D+"MNistLoader.hpp")])

p("P27", "Generated linear data sets have the promised size and relation",
  "The generators return exactly the requested number of samples; batched generation splits them into full batches except possibly the last, with inputs and targets of matching shape. Every target equals 2*input + 3 plus normal noise of the requested standard deviation, and inputs lie in [0, 100]; with zero noise the relation is exact up to rounding.",
  ["inputs", "configurations"],
  "all sample counts, batch sizes and noise levels",
  "Output is random and split by a ceiling division; no test covers it.",
  [D+"SampleGenerator.hpp"], [("generateLinearDataset, generateBatchedLinearDataset", D+"SampleGenerator.hpp")])

p("P28", "Parallel builds give the same results as sequential ones",
  "When the library is compiled with OpenMP, every operation that contains a parallel loop (pairwise application, transpose, matrix products, random tensors, Adam updates) gives the same result as the sequential program for every number of threads and every schedule. No two iterations touch the same mutable data.",
  ["schedules"],
  "all thread counts and all interleavings of loop iterations",
  "The project's tests are built without OpenMP, and a racy loop passes most of the time when it is enabled.",
  [T+"AdvancedTensorOperations.hpp", T+"TensorOperations.hpp", O+"AdamOptimizer.hpp"],
  [("#pragma omp parallel for loops", T+"AdvancedTensorOperations.hpp, "+T+"TensorOperations.hpp, "+O+"AdamOptimizer.hpp")])

p("P29", "Text renderings show exactly the tensor and the training progress",
  "The data string of a tensor lists all its elements in row-major order and the detailed string shows its shape and the first ten elements, marking when more follow; a shape prints its dimensions in order. Training prints one line per epoch with the epoch number and mean loss. The ASCII rendering of an image maps each pixel of the first image to the character for its intensity level, one text row per image row.",
  ["inputs"],
  "all shapes, values and image contents",
  "Not covered by any test; off-by-one in limits and index order appear for particular sizes only.",
  [T+"TensorDataCPU.impl.hpp", "smart_dnn/Shape/Shape.hpp", D+"MNistLoader.hpp", M[1]],
  [("toString/toDataString", T+"TensorDataCPU.impl.hpp"), ("toAsciiArt", D+"MNistLoader.hpp")])

for d in P:
    assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
