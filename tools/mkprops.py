#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe, "hook_needed": hook}})

DS = "src/dataset/mod.rs"; MX = "src/math/matrix/mod.rs"; NW = "src/cvnn/network/mod.rs"
LY = ["src/cvnn/layer/mod.rs", "src/cvnn/layer/dense.rs", "src/cvnn/layer/conv.rs",
      "src/cvnn/layer/reduce.rs", "src/cvnn/layer/flatten.rs"]
RN = "src/math/random/mod.rs"; MA = "src/math/mod.rs"; CF = "src/math/cfloat/mod.rs"
AC = "src/act/mod.rs"; OP = "src/opt/mod.rs"; IN = "src/init/mod.rs"

prop("C01", "Image batches are the files' records in order, however reads behave",
 "Loading an MNIST image/label file pair batch by batch yields exactly the records that are complete in both files, each once and in file order, every image (byte/255 per pixel, 28x28 row-major) with the one-hot vector of its own label. This does not depend on the batch sizes, on reads that return fewer bytes than asked or are interrupted, or on other loads running at the same time. Every call returns at most the requested number of points; once the data is used up every further batch is empty.",
 ["inputs", "fault_sequences", "schedules", "histories"],
 "All file contents and lengths, all sequences of batch sizes, all sequences of short and interrupted reads the OS may answer with, and all interleavings with other loads; real and complex, 32- and 64-bit element types.",
 "The two tests that load images need the MNIST download, are not in the stable baseline, read one 100-point batch through fast local reads and assert nothing; no test can make the kernel return 300 of 784 bytes or EINTR on the n-th read.",
 [DS],
 [("tracker", "bytes consumed from the label file, carried by the caller between calls", DS),
  ("file offsets", "position of both files between calls", DS)],
 [("batch loader, real elements", DS + " minist_as_batch"), ("batch loader, complex elements", DS + " minist_as_complex_batch")],
 ["the data points returned by each load call"])

prop("C02", "A failed or corrupt read never becomes a data point",
 "If the operating system reports an error while a batch is being loaded, or a record to be delivered carries a label that is not one of the ten classes, the load call fails instead of returning. If the files end anywhere, including inside a header or a record, or have different record counts, exactly the records complete in both are delivered. Every batch returned before the failure or the end holds only genuine records, in order.",
 ["fault_sequences", "inputs", "histories"],
 "Every read call at which an I/O error can strike, every byte at which either file can end, every invalid label value and position, mixed with short and interrupted reads.",
 "No test truncates a file, corrupts a label or injects a read error; the error paths of the loaders are never executed by the suite.",
 [DS, MA],
 [("record buffers", "last bytes read, reused from record to record", DS)],
 [("end-of-file and error handling of the loaders", DS), ("one-hot encoder's class check", MA + " gen_pred")],
 ["the data points returned by each load call", "whether the call returned or failed"])

prop("C03", "An export reports success only if the file holds every value exactly",
 "When exporting a matrix or a data batch to CSV reports success, the file contains exactly one line per matrix row (or per data point: its inputs, then its targets), with every value in its place and reading back equal to the original, and nothing else, also if the path held older and longer content and if writes were partial or interrupted. When the operating system refuses to open the file or to store any byte of it, the call reports an error: neither success nor a crash.",
 ["fault_sequences", "inputs", "crash_points"],
 "Every system call of an export at which an open or write can fail, be cut short or be interrupted, every disk-full byte offset, all table shapes and all finite and non-finite element values of the four float and complex types.",
 "The only stable test that exports writes one batch to a healthy disk and never reads it back; failures and partial writes are never produced.",
 [MX, DS, CF],
 [("target file", "content at the export path", MX)],
 [("matrix export", MX + " to_csv"), ("data batch export", DS + " to_csv"), ("complex number text form", CF + " Display")],
 ["result of the export call", "bytes of the target file"])

prop("C04", "A crash during an export leaves old content or a clean prefix",
 "At every moment of an export, hence after a crash at any point, the target path holds either what it held before the export or a leading part of the correct new content, and no other existing file is touched. Repeating the export after a crash produces the complete correct file. Exports running at the same time to different paths each leave exactly the bytes they would leave alone.",
 ["crash_points", "schedules", "histories"],
 "Every system-call boundary and every torn write inside an export, every old content of the path, and all interleavings of concurrent exports (also of the same data).",
 "Tests run exports to completion one at a time and never look at intermediate or post-crash file states.",
 [MX, DS],
 [("target file", "content at the export path at each instant", MX)],
 [("create/truncate then append in row order", MX + " to_csv"), ("create/truncate then append in point order", DS + " to_csv")],
 ["bytes of the target file after every system call"])

prop("C05", "Concurrent evaluation of one network gives every caller its solo answer",
 "Any number of threads may evaluate the same network at the same time (predictions, intermediate activations, loss, accuracy), and under every interleaving each caller gets bit for bit the answer it gets when it is alone. Evaluating never changes the network, and an answer does not depend on what was evaluated before it or on evaluations that failed.",
 ["schedules", "histories", "inputs"],
 "All interleavings of all sets of concurrent evaluation calls on all networks (any mix of dense, convolution, pooling and flatten layers), including callers whose evaluation fails midway.",
 "No test evaluates a network at all, let alone from two threads; the layer type declares itself thread-safe by unsafe assertion, so the compiler does not check it either.",
 [NW] + LY,
 [("layer parameters and any cached scratch data", "must be read-only during evaluation", LY[0])],
 [("unsafe Send/Sync declarations of layers", LY[0]), ("evaluation through shared references only", NW)],
 ["values returned to each caller", "network parameters read back through layer evaluation"])

prop("C06", "One training step moves every parameter by exactly the mean gradient",
 "A training step with the squared-error loss changes every weight, kernel element and bias by minus the complex conjugate of: learning rate (possibly complex) times the average over the batch of the derivative of the squared error summed over all outputs; nothing else changes. Derivatives pass backwards through every layer and activation function by the chain rule, and through pooling layers by placing each value at the centre of its block and smoothing with the layer's interpolation kernel. This holds at every step of a training history and while other networks are trained concurrently.",
 ["programs", "inputs", "histories", "schedules"],
 "All networks of two or more layers over all layer kinds, sizes, activation functions and precisions, all batches and batch sizes, all learning rates, all sequences of steps and all interleavings with other training.",
 "No test runs a training step; an error in one layer's backward pass still trains plausibly and can only be seen by comparing each parameter's movement with an independent derivation, over many layer mixes.",
 [NW, AC, OP, CF, MX] + LY[1:],
 [("parameters", "weights, kernels and biases of every layer", LY[0])],
 [("gradient accumulation and scaling", NW + " gradient_opt"), ("dense backward pass", LY[1]), ("convolution backward pass", LY[2]), ("pooling backward pass", LY[3]), ("negative conjugate update", LY[1])],
 ["parameters before and after each step, read back through layer evaluation"])

prop("C07", "A failed operation leaves the network exactly as it was",
 "If a training step, an evaluation or the addition of a layer fails, whether it is rejected with an error or panics while any one data point of the batch is being processed, then every parameter and the layer structure are bit for bit what they were before the call. Afterwards the network evaluates and trains exactly as if the failed call had never been made.",
 ["fault_sequences", "histories", "programs"],
 "Every data point and every computation step within it at which a failure can strike (malformed input or target, wrong shapes, a failing user pooling function, division by zero in an activation, an arithmetic fault), for every network and every history of successful and failed calls.",
 "No test makes any network call fail; a step that fails on the last point of a batch is indistinguishable from success unless all parameters are compared.",
 [NW] + LY,
 [("parameters and layer list", "state that must survive failures", NW)],
 [("gradients of the whole batch are accumulated before any update", NW + " gradient_opt"), ("compatibility check before a layer is appended", NW + " add")],
 ["parameters, shapes and answers before and after the failed call"])

prop("C08", "Whole pipelines are reproducible from their seeds under any interleaving",
 "A pipeline that initialises a network from a seed, generates or loads its data, trains, records losses and exports results produces bit-identical networks, data, losses and files whenever its seeds and input files are the same. Other pipelines running at the same time, earlier runs in the same process, and partial or interrupted reads and writes make no difference.",
 ["schedules", "fault_sequences", "histories"],
 "All interleavings of concurrently running pipelines, all sequences of benign I/O interruptions, all orders of pipelines in one process.",
 "The examples are never run by the suite and no test runs anything twice and compares; reproducibility under concurrency needs control over the schedule.",
 [DS, NW, RN, IN, MX],
 [("caller-owned random seeds", "the only source of randomness", RN)],
 [("explicit seed threading, no global state", RN), ("layer initialisation from the seed", LY[1])],
 ["final parameters, loss history, delivered data points, exported bytes"])

prop("C09", "Evaluation computes the network's mathematical function at all times",
 "At every point of any history of building, training, failed calls and evaluation, also from several threads taking turns through a lock, a prediction equals the composition of the layers' mathematical functions at the current parameters. The collected activations are the input followed by each layer's output, and intercepting at layer i gives the input of layer i together with that layer. The loss is the average over the points (squared error averaged over the outputs, or cross-entropy of the softmax of squared magnitudes), and the accuracy is the fraction of points whose largest-magnitude output has the index of the largest-magnitude target.",
 ["histories", "programs", "inputs", "schedules"],
 "All networks, data and histories, all positions in the history at which an evaluation can be asked, all orders in which threads get their turn.",
 "No test evaluates a network or checks a loss value.",
 [NW, AC, OP, MX] + LY,
 [("parameters", "weights, kernels and biases at the moment of the call", LY[0])],
 [("layer-by-layer evaluation", NW + " forward"), ("activation list", NW + " collect_acts"), ("interception", NW + " intercept"), ("loss and accuracy", NW + " loss, max_pred_test")],
 ["values returned by the evaluation calls"])

prop("C10", "A matrix is the table its edit history says, in sequence and in parallel",
 "After any history of accepted and rejected row and column insertions, deletions and element updates, every way of reading a matrix (element, row, column, row iteration, parallel row iteration, flattened body) shows exactly the table that history describes. An insertion is accepted exactly if its length matches the table and the table, including it, fits in the reported capacity; a rejected operation changes nothing, neither the matrix nor the row or column offered to it. Parallel row iteration visits every row exactly once with its own content, whatever way the work is split and interleaved.",
 ["histories", "schedules", "inputs"],
 "All operation histories on tables of all shapes and capacities, and all splittings and interleavings of parallel row iteration, for scalar and complex elements.",
 "Tests only build fixed full matrices and print them; insertion, deletion and parallel iteration are never exercised.",
 [MX],
 [("body, shape, capacity", "flattened storage and its two-dimensional reading", MX)],
 [("row and column edits", MX + " add_row, add_mut_row, add_col, del_row"), ("row views", MX + " rows_as_iter, rows_as_par_chunks")],
 ["results of edits and of all read accessors"])

prop("C11", "Random draws depend only on the caller's seed and stay in range",
 "Every random draw, initial weight and initialised layer is a function of the seed passed in alone: equal seeds give equal values and equal follow-up seeds, whatever else was drawn before or is being drawn at the same time. For every seed, uniform draws lie in [0,1], index draws are below their limit, initial weights are finite and follow the scale of the requested distribution, and initial biases are zero.",
 ["inputs", "schedules", "histories"],
 "All seed values including those that produce extreme raw draws, all limits from 1 up to 2^64-1, all initialisation methods, layer sizes and precisions, all interleavings of concurrent streams.",
 "The doc examples draw ten values from one seed and assert nothing; the seeds that hit extreme draws are about one in two billion.",
 [RN, MA, IN, LY[1], LY[2]],
 [("caller-owned seed", "the whole generator state", RN)],
 [("linear congruential generators", RN), ("weight distributions", MA), ("layer initialisation", IN)],
 ["drawn values, follow-up seeds, initial parameters"])

prop("C12", "Synthetic signal batches are normalised, finite and one continuous stream",
 "For every pair of seeds, every even number of samples and every batch size, generating signals yields the requested number of training and test points, each with that many finite samples in input and target, each clean target with largest magnitude one, and each input equal to its target when the noise level is zero. Generating a batch in several smaller calls that carry the seeds on gives exactly the points of one large call. Generators running concurrently do not influence each other.",
 ["inputs", "histories", "schedules"],
 "All seeds including those that hit extreme raw draws, all sizes and noise levels, all ways to split a batch into calls, all interleavings of concurrent generators.",
 "One test generates 20000 points from one fixed seed pair and does not look at them.",
 [DS, RN],
 [("train and test seeds", "carried by the caller between calls", DS)],
 [("signal generator", DS + " signal_reconstruction")],
 ["the generated data points and follow-up seeds"])

prop("C13", "A network is exactly the chain of layers it accepted",
 "After any history of accepted and rejected layer additions, the network's input shape, output shape, parameter count and layer order are those of the layers it accepted, in order. A first layer is accepted exactly if the network is empty, and a further layer exactly if its input shape equals the current output shape; a dense or convolution layer without units is never accepted.",
 ["histories", "programs"],
 "All histories of layer additions, fitting and unfitting, to networks in every state, including after training and failed calls.",
 "No test adds a layer to a network.",
 [NW] + LY,
 [("layer list", "ordered chain of layers", NW)],
 [("addition checks", NW + " add_input, add"), ("shape reporting", LY[0])],
 ["results of additions, reported shapes and counts, layers reached by interception"])

prop("C14", "Complex arithmetic depends on its operands alone and follows its definitions",
 "Addition, subtraction, multiplication and division of complex numbers, in value, reference and assigning form, conjugate, modulus, squared modulus, phase, polar form and comparison by modulus agree with the mathematical definitions up to rounding as long as nothing over- or underflows. Division by zero is refused and leaves the operand unchanged. Each result depends on its operands alone: not on earlier operations, also refused ones, and not on operations other threads perform at the same time.",
 ["inputs", "histories", "schedules"],
 "All pairs of complex numbers in both precisions, all forms of every operation, all histories of accepted and refused operations, all interleavings of threads down to single instructions.",
 "Tests print a handful of values; none computes on two threads or after a refused division.",
 [CF, MA],
 [("operands", "the only thing a result may depend on", CF)],
 [("operator implementations", CF), ("modulus, phase, polar form", MA)], ["operator results and refusals"])

prop("C15", "Activations and their derivatives are functions of their argument alone",
 "Every activation function equals its definition (saturated sigmoids up to the library's clamping), and its reported derivative and conjugate derivative equal its two Wirtinger derivatives wherever it is differentiable, in both precisions and in all forms: single value, released function and in place on a slice. A result depends on its argument alone: not on its neighbours in a slice, on what was computed before, or on what other threads compute at the same time.",
 ["inputs", "histories", "schedules"],
 "All complex inputs away from the non-differentiable points, slices of all lengths, all histories of evaluations, all interleavings of threads down to single instructions.",
 "No test evaluates an activation function.",
 [AC, MA],
 [("argument", "the only thing a value may depend on", AC)],
 [("activation functions and derivatives", AC)], ["function values"])

prop("C16", "Matrix operations equal their definitions whatever ran before or beside them",
 "Valid cross-correlation, zero padding, 180-degree flipping, block reduction with a user's function, fractional up-sampling, addition, scaling and products with vectors equal their definitions for every shape on which they are defined; operands that do not fit are refused and left unchanged. Each result depends on its operands alone: not on operations other threads run on the same matrices at the same time, on operations that failed before (also inside the user's function), or on operations the user's function performs itself.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "All matrices, kernels, block sizes and paddings, all histories of accepted, refused and failed operations, all interleavings with operations of other threads, all calls at which a user's function can fail.",
 "Tests run some of them once on MNIST images that are not available and print the outcome; no test runs two at a time or makes one fail.",
 [MX],
 [("operands", "read-only while an operation runs", MX)],
 [("convolution, padding, flipping, block reduction, up-sampling", MX), ("slice products and sums", MX + " SliceOps")],
 ["returned matrices and refusals", "operands after each operation"])

prop("C17", "Layer derivatives follow the chain rule; adjustments add up exactly",
 "For values of fitting shape the derivatives a dense, convolution or pooling layer reports (for its parameters, its input and the conjugate of its input) follow the chain rule at its current parameters (for pooling: each value at the centre of its block, smoothed with the interpolation kernel), and every thread asking at the same time gets bit for bit its solo answer. After any history of adjustments a layer's parameters are the initial ones minus the complex conjugates of the accepted adjustments; one for a dense or convolution layer is accepted exactly if it has one value per weight and one per bias. A refused adjustment, a failed derivation or a failed evaluation changes nothing.",
 ["histories", "schedules", "inputs", "fault_sequences"],
 "All layers, inputs and derivative values, all histories of accepted and refused adjustments mixed with failing calls, all interleavings of threads asking one layer.",
 "No test asks a layer for derivatives or adjusts one.",
 LY[:4] + [AC, MX],
 [("parameters", "weights, kernels and biases of the layer", LY[0])],
 [("derivatives", LY[0] + " compute_derivatives"), ("adjustment and its checks", LY[0] + " neg_conj_adjustment")],
 ["returned derivatives", "parameters read back through evaluation", "results of adjustments"])

prop("C18", "A data set is exactly the sequence of points that was added to it",
 "After any history of additions, a data set's count, lookups, iteration (in both directions, consuming or not) and copies show exactly the points added, in order and with their values unchanged; asking beyond the end is refused. Reading the features out of a value gives them unchanged and in order, and a vector is never released as maps nor maps as a vector. Threads reading, copying or adding at the same time, to this or other sets, make no difference.",
 ["histories", "schedules", "inputs"],
 "All histories of additions and reads, all mixes of vector and map values, all interleavings of readers and of writers taking turns through a lock.",
 "No test adds points by hand, looks one up or copies a set.",
 [DS, "src/input/mod.rs"],
 [("points", "ordered list of input/target pairs", DS)],
 [("addition, lookup and iteration", DS), ("feature access and release", "src/input/mod.rs")],
 ["results of all read accessors"])

prop("C19", "Losses, their derivatives and one-hot targets depend on their operands alone",
 "For a target and a prediction with equally many values, as vectors or feature maps, the squared-error loss is the mean squared modulus of their difference, its derivative with respect to each predicted value is the conjugate of prediction minus target, and the cross-entropy loss is minus the sum over the outputs of the target's real part times the logarithm of the softmax of the predictions' squared moduli. A vector paired with feature maps is refused; the one-hot target of a class below the number of classes has a one at that class and zeros elsewhere, any other class is refused with an error. No operand is changed and no result depends on what was computed before or on what other threads compute at the same time.",
 ["inputs", "histories", "schedules"],
 "All targets and predictions of all lengths and map shapes in both precisions, all classes and class counts, all histories of computed and refused calls, all interleavings of threads down to single instructions.",
 "No test computes a loss or asks for the target of an invalid class.",
 [OP, MA, CF],
 [("operands", "the only thing a result may depend on", OP)],
 [("loss functions and derivatives", OP), ("one-hot encoder", MA + " gen_pred")], ["returned losses, derivatives, targets and refusals"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
