#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of every property lives here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

TC, JS, CS, PA = "source/parser/type_checker.hpp", "source/parser/json.hpp", "source/parser/csv.hpp", "source/parser/parser.hpp"
MN, CI, DS = "source/parser/mnist.hpp", "source/parser/cifar.hpp", "source/data/dataset.hpp"

prop("C01", "Field type inference is a total function of the text alone",
 "Every text is given exactly one type: no type for the empty text, boolean for exactly true and false, integer for an optionally signed decimal without superfluous leading zeros, float for an optionally signed decimal with optional fraction and exponent that is not an integer, and string for everything else. The answer is the same whether a text is asked about alone, as part of a list or through a yes/no question about one type, and it never depends on what was asked before.",
 ["inputs", "histories"], "every text over the characters that matter to the grammar, every list of texts, every order of asking",
 "The tests try about a dozen texts; the grammar has infinitely many borderline texts (signs, leading zeros, bare dots, dangling exponents, near-booleans).",
 [TC], [("type classification", TC + ": TypeChecker::parse, is_float, is_int, is_bool, is_string")], observe=["TypeChecker::parse"])

prop("C02", "Text-to-value conversion is all-or-nothing and exact",
 "Converting a text to a number succeeds exactly when the whole text is one number of the requested kind that fits the type, and then yields its value; a text with anything left over is reported as not converted. Every text inferred to be an integer or a float and fitting the type converts, and writing an integer or boolean as text and converting it back gives the same value.",
 ["inputs"], "every text over the number alphabet, every integer around the limits of each integer width, booleans",
 "Tests convert a handful of short numbers; partial consumption, sign and limit cases are unbounded.",
 [TC], [("conversion", TC + ": convert<T>(text, ref), convert<T>(value), TypeChecker::parse<T>")])

prop("C03", "JSON documents survive writing and reading back",
 "Writing any document built from dictionaries, lists (both possibly empty and arbitrarily nested), strings, booleans, integers and finite doubles and then reading the text back gives an equal document: same structure, same order, same keys, same leaf texts, same leaf types and the same number values. Reading consumes exactly the document, so documents written one after another on a stream are read back one after another.",
 ["inputs", "programs"], "every document up to a nesting and width bound, with every leaf kind in every position, alone or in sequence on one stream",
 "Tests read a few fixed texts; nesting position, emptiness, ordering and adjacency of containers and leaves combine without bound.",
 [JS], [("writer", JS + ": operator<< of JsonLeaf/JsonList/JsonDict/JsonItem"), ("reader", JS + ": operator>> of the same")])

prop("C04", "The JSON reader always terminates and never invents the end of a container",
 "Reading any text whatsoever ends: it neither loops, exhausts memory nor crashes. If the text breaks off inside a dictionary or list, the reader reports an error by an exception instead of returning a document.",
 ["inputs", "fault_sequences"], "every short text over the structural characters of JSON, every truncation of every well-formed document",
 "Tests only read complete, well-formed documents.",
 [JS], [("reader loops", JS + ": operator>>(std::istream&, JsonList&), operator>>(std::istream&, JsonDict&), operator>>(std::istream&, JsonLeaf&)")])

prop("C05", "JSON documents are values: edits touch exactly the addressed place",
 "An item is empty, a leaf, a list or a dictionary; appending to or keying into an empty item turns it into a list or dictionary, and any operation that does not fit the kind of an item, an index out of range or a constant lookup of a missing key is reported by an exception and changes nothing. Copies and assignments are independent of their source, so an edit through one handle is never visible through another. Two items are equal exactly when their structure and leaf texts are equal, including empty items.",
 ["histories", "programs"], "every sequence of construct, copy, assign, index, key, append, convert and compare operations over several items, including assignment between an item and its own parts",
 "Tests follow a few hand-written scripts; aliasing and error atomicity need all interleavings of edits on shared-looking handles.",
 [JS], [("item kinds and copies", JS + ": JsonItem, JsonList, JsonDict, JsonLeaf")], state=[("item tree", "kind and content of each item", JS + ": JsonItem::_value, _json_type")])

prop("C06", "CSV rows do not depend on how they are reached",
 "The fields returned for a row of a CSV file are the fields on that line of the file, whichever rows were read before and whether the row is reached by index, by iterator moved forwards and backwards any number of steps, by a copy of the reader or as a data entry. Iterating over a file visits every data line exactly once, in file order, and stops.",
 ["histories", "inputs"], "every sequence of index, entry, iterator begin/end/increment/decrement/advance/compare/copy operations on files with zero to several data lines",
 "Tests make a few accesses in file order on one file; the reader keeps a file position and a one-row cache, so only the order of accesses breaks it.",
 [CS], [("cursor and row cache", CS + ": CSV::operator[]"), ("iteration", CS + ": CSVIterator, CSV::begin, CSV::end"), ("dataset view", CS + ": CSV::entry, entries_amount")],
 state=[("cached row index and stream position", "what the last access left behind", CS + ": CSV::_row_idx_cache, _row_cache, _file")])

prop("C07", "CSV shape, types and field values are those of the file",
 "The number of columns is the number of separated fields of the header line, the number of rows the number of lines of the file, the column types those inferred from the first data line unless a complete list of types is given, and each field is the exact text between separators, an empty field included. Converting fields to numbers gives the written number and zero for an empty field, and asking for a field beyond the row is an exception.",
 ["inputs", "configurations"], "every small file over short, empty, numeric, boolean and quoted fields, with and without final newline, several separators and type lists",
 "Tests use one well-filled file; empty fields, ragged rows, missing final newline and header-only files are never read.",
 [CS, PA], [("row split", CS + ": CSVRow"), ("shape and types", CS + ": CSV::CSV"), ("conversion", CS + ": CSVField::as, CSVRow::operator std::vector<T>")])

prop("C08", "Label encoding is a one-hot re-labelling that leaves features alone",
 "Encoding a data set turns the value of each label column into a block of zeros with a single one, at the position of that value among the sorted distinct values of that column; equal values get equal blocks and different values different blocks. All feature columns are kept, unchanged and in their order, and the announced entry width and label positions match the encoded entries.",
 ["inputs", "configurations"], "every small data set, every choice of label columns (none, first, middle, last, several, all)",
 "Tests encode one file with its label in one place; the position of label columns relative to feature columns decides the layout.",
 [PA], [("encoding", PA + ": DatasetParser::data_to_encoding, unique_map, encoding_feature_size, encoding_labels_idx")])

prop("C09", "MNIST files are validated on opening and read independently of history",
 "A pair of image and label files is accepted exactly when both can be opened, both carry their magic number, announce the same number of items and images of 28 by 28; anything else is reported by an exception. Any image, label or entry read is the bytes stored at that position of the files, whatever was read before, including after reads beyond the end of a short file. A printed image shows every pixel in its place, and its marks stand for bands of brightness.",
 ["inputs", "histories", "fault_sequences"], "every corruption of each header field, short files, every order of image/label/entry reads incl. wrap-around indices",
 "Tests read the shipped files in order; header corruption, short files and interleaved accesses are not tried.",
 [MN], [("header checks", MN + ": Mnist constructor"), ("seek and read", MN + ": MnistImage/MnistLabel access, Mnist::entry")])

prop("C10", "CIFAR records are read with the right layout, independently of history",
 "For both record layouts (one label byte, or coarse and fine label bytes) any record read is the label bytes and the 3 planes of 32 by 32 pixels stored at that position of the file, whatever was read before and also after a read beyond the end of a short file. The requested pixel order is an exact permutation of the stored pixels, and entries are the pixels followed by the label that the data set predicts. A printed image shows every pixel in its place with a mark for its perceived brightness (0.21 red, 0.72 green, 0.07 blue).",
 ["inputs", "histories", "configurations"], "both data sets, every pixel order, every order of record reads incl. wrap-around and past-the-end indices",
 "Tests read single records with one layout; orders of accesses and short files are not tried.",
 [CI], [("record access", CI + ": CifarBatch, CifarImage, Cifar::entry")])

prop("C11", "A data set hands out exactly its rows, split into inputs and labels",
 "A data set built from a flat vector, rows or sequences keeps the whole leading rows (respectively sequences) in order and drops only an incomplete tail; every accessor by row or by sequence returns those rows. For every choice of label columns the inputs and labels of a row are its unselected and selected columns, in order, and together they are the row; the label columns can be chosen anew at any time.",
 ["inputs", "configurations"], "every small data length, row width, sequence length and set of label columns",
 "Tests fix a few shapes; the interplay of incomplete tails, sequence lengths and label positions is not covered.",
 [DS], [("construction and access", DS + ": Dataset constructors, entry, entry_seq, input(s), label(s) and *_seq")])

prop("C12", "Splitting, selecting, joining, shuffling and scaling lose or invent no row",
 "Splitting or selecting by index or fraction yields consecutive rows (whole sequences) whose concatenation is the original; joining two data sets keeps all rows and columns of both and refuses mismatching shapes or labels; shuffling permutes whole rows; scaling maps the given or observed range of every column linearly onto 0 to 1, keeps the order of its values and turns a constant column into zeros. Every derived data set keeps row width, sequence length and label columns consistent with its content.",
 ["inputs", "histories"], "every small data set and every short sequence of derive operations on it",
 "Tests apply one operation to one data set; compositions and boundary fractions are not tried.",
 [DS], [("derivations", DS + ": subdata, split, concatenate, shuffle, min_max_normalization, parse")])

prop("C13", "The network graph orders every layer after what it depends on",
 "Whatever the order in which layers and edges are added, evaluating the network follows every edge that an input layer reaches exactly once, and an edge out of a layer only after all such edges into it; the gradient pass does the same backwards from the loss layers. The reported input, output and loss layers are those without predecessor, without non-loss successor, and attached as losses; invalid edges are refused without changing the graph.",
 ["programs", "histories"], "every directed acyclic graph on a few layers, built in every order, with and without losses",
 "Tests build a few fixed chains; the evaluation order depends on graph shape and insertion order.",
 ["source/dnn/dlgraph.cpp", "source/dnn/dlgraph.hpp"], [("graph and run order", "source/dnn/dlgraph.cpp")])

prop("C14", "A training step computes the chain of its layers and nothing else",
 "In a network whose layers have at most one predecessor (chains and branching trees), predicting returns the composition of the layers in graph order applied to the input and changes no learnable value, gradient or score, so repeating it returns the same output. A training step adds the gradient of its sample to the accumulated gradients and its loss to the score; gradients of several steps add up, and training applies them once and leaves them zero.",
 ["histories", "programs"], "every short sequence of predict, step, train, reset and copy on small chains and trees with exactly representable values",
 "Tests check that calls do not throw and that a loss decreases; accumulation and purity over histories are not checked.",
 ["source/dnn/model.cpp", "source/dnn/dense.cpp", "source/dnn/activation.cpp"], [("step/train/predict", "source/dnn/model.cpp: Model::step, train, predict")])

prop("C15", "Model copies share learned values but own their gradients and scores",
 "A copied or assigned model computes the same outputs as its source and keeps doing so after either is trained. It starts from the gradients and scores its source had at that moment, and from then on gradients, activations and scores of one are never visible in the other. Training a model with the gradients collected by a copy has the same effect as training with its own.",
 ["histories"], "every short sequence of copy, assign, step, train, predict and score operations over several handles of one model",
 "Tests copy once and compare immediately.",
 ["source/dnn/model.cpp", "source/dnn/dlgraph.cpp", "source/type.hpp"], [("copy and swap", "source/dnn/model.cpp: Model(const Model&), operator=, State"), ("clone", "source/dnn/dlgraph.cpp; source/dnn/layer.hpp: Layer::clone")])

prop("C16", "A saved model loads back as the same model",
 "Dumping a model, or any layer, writing it as text, and loading that text into a model of the same architecture gives a model with the same names, shapes, learned values and settings its outputs depend on, which therefore predicts exactly the same outputs. Loading into a layer of another kind is refused and leaves that layer as it was.",
 ["inputs", "programs"], "every layer kind, all small architectures, learned values of any magnitude",
 "Tests dump a freshly initialised layer and read a few fields back; value precision and cross-kind loads are not covered.",
 ["source/dnn/model.cpp", "source/dnn/layer.cpp", "source/dnn/dense.cpp", "source/dnn/convolutional.cpp", "source/dnn/recurrent.cpp", JS], [("dump and load", "source/dnn/*: dump(), load()"), ("number text", JS + ": JsonLeaf(double)")])

prop("C17", "Each layer computes its mathematical function for every shape",
 "For every admissible input, kernel, stride, padding and channel count a dense layer outputs the weighted sums plus bias, a convolution the sums over every window plus bias, pooling the maximum or mean of every window, and each activation its function; inputs are not modified. Output shapes match, and every window that fits is used exactly once.",
 ["inputs", "configurations"], "all small shapes, strides, paddings and channel counts, with small integer values so that results are exact",
 "Tests fix one or two shapes per layer, mostly square, single stride.",
 ["source/dnn/dense.cpp", "source/dnn/convolutional.cpp", "source/dnn/pooling.cpp", "source/dnn/max_pooling.cpp", "source/dnn/avg_pooling.cpp", "source/dnn/activation.cpp", "source/dnn/dropout.cpp", "source/dnn/dlmath.hpp"],
 [("forward", "source/dnn/*: training_forward, forward"), ("kernels", "source/dnn/dlmath.hpp: matarr_mul, cross_correlation, max_pool, avg_pool")])

prop("C18", "Backward passes are the exact derivatives of forward passes",
 "The gradient a layer hands back for its input is the transpose of its forward function applied to the incoming gradient (for a maximum, routed to the element that won; for dropout, to the elements that were kept), and the gradients of its weights and biases are added to what was accumulated before. No input position receives gradient from a window it is not part of.",
 ["inputs", "configurations", "histories"], "all small shapes, strides and paddings, several samples in a row, small integer values",
 "Tests compare with hand-computed numbers for one shape and one sample; boundary windows and accumulation are not covered.",
 ["source/dnn/dense.cpp", "source/dnn/convolutional.cpp", "source/dnn/max_pooling.cpp", "source/dnn/avg_pooling.cpp", "source/dnn/activation.cpp", "source/dnn/dropout.cpp"], [("backward", "source/dnn/*: backward")])

prop("C19", "Loss scores count every evaluated sample exactly once",
 "After any sequence of evaluations and resets the reported loss is the sum of the sample losses since the last reset divided by the number of samples, the accuracy the fraction of correct samples among them, and both start again from nothing at a reset. The loss of a sample is the mean of the squared errors, or the categorical cross entropy; the gradient handed back is the derivative of the sum of the squared errors, or of the cross entropy, divided by the batch size; evaluating without a target or with an invalid target is refused and not counted.",
 ["histories", "inputs"], "every short sequence of set-target, forward, backward and reset with correct, wrong and borderline outputs",
 "Tests evaluate one or two samples after construction.",
 ["source/dnn/loss.cpp", "source/dnn/mse_loss.cpp", "source/dnn/cce_loss.cpp"], [("score", "source/dnn/loss.cpp; mse_loss.cpp; cce_loss.cpp")])

prop("C20", "Optimisers apply each gradient exactly once and then clear it",
 "Training a layer moves every learnable value by exactly the amount the optimiser's rule gives for its accumulated gradient (learning rate times gradient for gradient descent, the bias-corrected moments rule for Adam) and sets that gradient to zero, so training again without new samples moves nothing under gradient descent. The checked form of training from a layer with another number of learnable values is refused and changes nothing.",
 ["histories", "inputs"], "every short sequence of gradient accumulation, training and optimiser reset on one or two layers",
 "Tests check single updates for one gradient.",
 ["source/dnn/optimizer.cpp", "source/dnn/gd_optimizer.cpp", "source/dnn/adam_optimizer.cpp"], [("update", "source/dnn/optimizer.hpp: train, train_check; gd_optimizer.cpp; adam_optimizer.cpp")])

prop("C21", "Training feeds every sample once per epoch, and schedules do not matter",
 "In every epoch each row of the data set is used for exactly one training step, in batches of the requested size with a final smaller one, at every level of parallelism. The learned values after training in parallel are the same for every schedule of the worker tasks.",
 ["schedules", "configurations"], "every schedule of the worker tasks for small data sets, batch sizes, epochs and worker counts",
 "Tests run one machine-chosen schedule and only check that nothing throws.",
 ["source/middleware/fnn.hpp", "source/dnn/model.cpp"], [("training loops", "source/middleware/fnn.hpp: Training<...>::run")])

prop("C22", "Network descriptions build the described network, in the right order of calls",
 "Adding layer descriptions one after another builds exactly the described chain: each layer followed by its activation (none is the identity), working on the shape that the layer before produces, which dropout leaves as it is; an input description anywhere but first is refused and leaves nothing behind. Fitting, predicting with or evaluating a network that has no layers, or evaluating or fitting a dynamic network before it is compiled, is an exception; predicting with it or asking for its sizes compiles it with the default settings. In every order of calls, what a network predicts depends only on its description, its settings and its last fit (data, optimizer, epochs, batch size, learning rate, seed): every fit starts over, compiling forgets the last fit, and predicting and evaluating change nothing. Predictions have one row of the output size per row of input, and an evaluation is the average loss and the accuracy of those predictions.",
 ["programs", "histories", "configurations"], "every short list of layer descriptions and every short sequence of add, compile, fit, predict, evaluate",
 "Tests build two or three networks and call fit then predict.",
 ["source/middleware/fnn.hpp", "source/middleware/nn.hpp", "source/middleware/layer_descriptor.cpp"], [("builder", "source/middleware/fnn.hpp: EdgeFeedforwardNeuralNetwork::add, fit, predict"), ("life cycle", "source/middleware/nn.hpp: DynamicNeuralNetwork")])

prop("C23", "A recurrent layer carries its hidden state through time and nowhere else",
 "For every sequence the output at each time step is the function of all inputs up to that step and the initial hidden state, never of later inputs; the state carried from one call to the next is exactly the last hidden state of the sequence unless it is set or reset explicitly. There is one output row and one input gradient row per time step, and the gradients are the derivatives of the outputs through time.",
 ["histories", "inputs"], "every short sequence of set-state, forward and reset over small sequences and sizes",
 "Tests run one sequence with fixed numbers.",
 ["source/dnn/recurrent.cpp", "source/dnn/recurrent.hpp"], [("time loop", "source/dnn/recurrent.cpp: training_forward, forward, backward")])

prop("C24", "Blocks of cells are taken apart and joined without losing a cell",
 "Appending blocks along a side gives a block in which each source lies, in order and cell by cell, at its own positions along that side and nothing else does; extracting a range of positions along a side gives exactly those cells; separating a block into given widths is the inverse of appending the parts. This holds for blocks of one to four sides and for every choice of side, for two sources as for many. Only the destination is written, never beyond the size of the result, and blocks whose other sides differ are refused.",
 ["inputs", "programs"], "every small block shape and every short sequence of append, extract and separate",
 "Tests join and split a few blocks of one shape.",
 ["source/dnn/dlmath.hpp", "source/type.hpp"], [("append and extract", "source/dnn/dlmath.hpp: append, extract, separate"), ("shapes", "source/dnn/dlmath.hpp: Shape2d, Shape3d")])

prop("C25", "Array arithmetic and activation functions compute their formulas at every length",
 "Each elementwise operation, product, sum, maximum, argument of the maximum, matrix product with a vector or a matrix (also transposed), cross-correlation and pooling computes its defining formula for every length and value, also when source and destination are the same array, and writes exactly its destination. Activation and loss functions and their derivatives are those of their definitions and stay finite and in range for arguments of any magnitude; the derivatives are the slopes of the functions.",
 ["inputs"], "every vector, matrix and window of small sizes over small values, arguments from tiny to huge magnitude",
 "Tests use one or two arrays per function.",
 ["source/dnn/dlmath.hpp"], [("arithmetic", "source/dnn/dlmath.hpp: arr_sum ... matmul_arr_arr, cross_correlation, max_pool, avg_pool"), ("functions", "source/dnn/dlmath.hpp: relu, elu, sigmoid, tanh, softmax and their derivatives")])

prop("C26", "Initialisation depends on seed, rule and fan-in only; random values in range",
 "Initialising a model gives every weight a value drawn from the chosen distribution (normal or uniform around zero) with the spread that the rule gives for the number of inputs feeding it, and every bias the same small constant; with the automatic rule exactly the layers that feed a rectifier get the Kaiming rule. The same seed, rule and distribution give the same values whatever happened to the model before, a call without a seed returns the one it took, and gradients and scores keep what they are. A random value between two bounds lies between them for every type, a random sequence is a permutation of its range and every order is possible.",
 ["histories", "inputs", "configurations"], "every short sequence of initialise, set, step, copy and assign over small networks; every small range of every type",
 "Tests check one initialisation of one layer and print random values.",
 ["source/dnn/model.cpp", "source/dnn/dlmath.hpp", "source/dnn/dense.cpp", "source/dnn/convolutional.cpp", "source/dnn/recurrent.cpp"], [("initialisation", "source/dnn/model.cpp: Model::init; source/dnn/*: init"), ("distributions", "source/dnn/dlmath.hpp: initialization_pdf, pdf, normal_pdf, uniform_pdf, rand, unique_rand_sequence")])

prop("C27", "A parsed file becomes the data set of exactly its rows",
 "Reading a file of records through a data set parser gives a data set with one row per record, in file order, each value the number that the text or the image of the file stands for, the label columns in the places the file format gives them, and nothing that is not in the file. Asking for a number of rows gives the first that many, never more than the file has. The distinct values of a column are each named once. The answer depends on the file alone: copies of the reader, other questions asked before, or other spellings of a number make no difference, and encoding a class column changes that column only.",
 ["inputs", "histories"], "every small table of values and walks over every pair of questions to a reader",
 "Tests parse one committed file and check a few sizes.",
 ["source/data/dataset.hpp", "source/parser/parser.hpp", "source/parser/csv.hpp", "source/parser/mnist.hpp"], [("parse", "source/data/dataset.hpp: Dataset::parse"), ("reader interface", "source/parser/parser.hpp: DatasetParser, LabeledDatasetParser")])

prop("C28", "No history reads or writes outside live objects or leaves memory behind",
 "Whatever legal sequence of calls a program makes on texts, documents, files, data sets, blocks, layers, graphs, models, optimizers and networks, the library only reads and writes objects that exist, within their bounds, never performs an undefined operation, and when the objects the program holds are gone nothing of them is left allocated.",
 ["histories", "inputs", "configurations"], "a sample of the histories of every specification, of every part of the library",
 "Tests run a few short histories and look at results only: a read beyond an array or a lost block changes none of them.",
 ["source/parser/json.hpp", "source/parser/csv.hpp", "source/data/dataset.hpp", "source/dnn/dlmath.hpp", "source/dnn/model.cpp", "source/dnn/dlgraph.cpp", "source/dnn/optimizer.hpp", "source/middleware/fnn.hpp"], [("raw arrays", "source/dnn/dlmath.hpp; source/dnn/*.cpp: forward, backward, load"), ("ownership", "source/parser/json.hpp: JsonItem; source/dnn/dlgraph.cpp; source/dnn/layer.hpp: parameters; source/dnn/optimizer.hpp")])

prop("C29", "Objects in separate threads and parallel training never race",
 "The tasks of a parallel training never access the same data at the same time unless all of them only read it, in no schedule. Objects that share nothing can be used in several threads at once: each history gives the results it would give alone, and layers and models made without a name get names that differ, in whichever threads they are made.",
 ["schedules", "histories", "configurations"], "every kind of parallel training over small data sets and worker counts; pairs of histories sampled from every specification run in two threads",
 "Tests train with threads a few times and look at nothing but that it ends; no test uses two threads itself.",
 ["source/middleware/fnn.hpp", "source/dnn/model.cpp", "source/dnn/dlmath.hpp", "source/dnn/layer.cpp"], [("parallel training", "source/middleware/fnn.hpp: Training<...>::run"), ("shared state", "source/dnn/dlmath.hpp: unique, random generators; source/dnn/*.cpp: caches of layers")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in P]; assert len(set(ids)) == len(ids)
for p in P: assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
