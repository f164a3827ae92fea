T = "TLA+ specification checked with TLC; "
A = "Exhaustive within the bounds recorded in the evidence; "
NA = {}
R = "Trusts the replay harness and the compiler. "
NOTE = {
 "C01": (T + "every explored text replayed into the code",
   A + "the specification is checked against itself (scanner = grammar) and every explored text is put to the real code through every entry point. " + R + "Texts beyond the bounds are covered only by single-edit neighbourhoods and long runs."),
 "C02": (T + "every explored text and limit value converted by the code",
   A + "every explored number text is converted to every width by the real code; doubles are compared exactly with an independent decimal conversion in the driver. " + R),
 "C03": (T + "every document the reader automaton accepts is built, written and read by the code",
   A + "reader and writer are inverse in the specification; every explored document is round-tripped by the real code in several spellings, alone and in sequences. " + R + "Leaf texts come from fixed tables, doubles are sampled bit patterns."),
 "C04": (T + "every prefix and malformed text the automaton generates is read by the code",
   A + "the automaton says which texts break off inside a container; every such text, cut at every character, all short texts over the structural characters and random mutations are read. " + R + "Non-termination is a time limit of 8 s."),
 "C05": (T + "walks over every transition replayed with the full state compared after each call",
   A + "locality, purity and frame properties are checked on the specification; every transition of the explored state graph is taken in the real code as part of long histories. " + R),
 "C06": (T + "walks over every transition of the cursor model replayed on real files",
   A + "the cursor model has the cache and the lazily moved streams; every transition is taken in the real code on several files. " + R),
 "C07": (T + "every explored file written out and opened by the code",
   A + "every explored token sequence is a file whose shape, types, fields and conversions are compared with the specification. " + R),
 "C08": (T + "every explored table encoded by the code",
   A + "every table up to the bounds with every set of label columns is encoded by the real code, directly and through CSV files. " + R),
 "C09": (T + "every explored pair of headers and every access transition replayed",
   A + "headers are explored field by field with early ends of file and single wrong bits; accesses over every stream state on complete and short files. " + R),
 "C10": (T + "every access transition replayed on generated files",
   A + "accesses over every stream state for both layouts, both pixel orders, complete and short files. " + R),
 "C11": (T + "every explored construction of a data set made by the code and every accessor compared",
   A + "every shape, sequence length and label set up to the bounds is built by the real code from a vector, rows or sequences. " + R),
 "C12": (T + "every explored history of derive operations replayed",
   A + "every operation from every explored data set is made by the real code; shuffling is checked as a permutation of whole rows, scaling exactly on dyadic values. " + R + "Column indices beyond the row width are outside the property."),
 "C13": (T + "every transition of the graph model replayed, run orders judged by TLC",
   A + "every call sequence up to the bounds on the number of arcs is replayed into the code, every run order the code gives is judged by the specification's definition of a run. " + R),
 "C14": (T + "every explored history of predict, step, train, reset and copy replayed on real networks",
   A + "networks and values are chosen so that every result is exact; every transition is taken in the real code and the learned values, gradients, scores and outputs compared with the specification. " + R + "Layers with several predecessors are outside the property."),
 "C15": (T + "every explored history over several handles of a model replayed",
   A + "learned values, gradients and scores of every handle are compared after every call. " + R),
 "C16": (T + "every explored architecture dumped, written, read and loaded by the code",
   A + "which dump fits which layer is decided by the specification; values are exact bit patterns of any magnitude. " + R),
 "C17": (T + "every explored layer shape and history replayed with every result compared",
   A + "the functions of all layers over all explored shapes are in the specification (exact integers; sigmoid, tanh, softmax, elu as terms evaluated with 60 digits). " + R),
 "C18": (T + "every explored layer shape and history of training and backward passes replayed; dropout histories judged by TLC",
   A + "derivatives in the specification are checked against the functions themselves (slopes, linearity, difference quotients); inputs of a maximum have no ties. " + R),
 "C19": (T + "walks over every transition of the loss score model replayed",
   A + "counts and scores compared after every call for both losses. Targets of the cross entropy have one class, predictions no ties. " + R),
 "C20": (T + "every transition of the optimizer model replayed with real layers",
   A + "the closed form of the Adam rule over the gradients since the last reset is the oracle, evaluated with 60 digits. " + R),
 "C21": (T + "every explored training history replayed; tasks run as fibers switched at allocations under explored and random schedules",
   A + "the specification gives the learned values after a fit for every mode (sequential, threads per batch, per entry), data set size, batch size and number of workers, for every order of the tasks; the real tasks run under enumerated and random interleavings and every result must equal it. " + R + "Interleavings inside a task are switched at allocation points, not at every memory access."),
 "C22": (T + "every explored network description and every transition of the life cycle replayed",
   A + "the specification gives the chain a description means and which settings and fit a network answers for; predictions and scores are compared bit by bit with a network assembled layer by layer from that chain (whose own behaviour C14 to C20 decide), in all three parallel modes under chosen schedules. " + R + "Descriptions that do not start with an input, or whose windows do not fit, are outside the property."),
 "C23": (T + "every transition of the recurrent layer model replayed; the same histories over real numbers",
   A + "with learned values that saturate the activation hidden states are finite and results exact, so that histories of any length are explored; functions and derivatives over the reals are terms of the specification, evaluated with 60 digits and checked against difference quotients. " + R + "A backward pass belongs to the training pass directly before it."),
  "C24": (T + "every explored block and every transition of the block stores replayed",
   A + "the laws (taking apart what was joined, associativity, choice of side) are checked on the specification; guard cells around every destination show that nothing else is written. " + R + "Ranges reaching beyond the block and overlapping sources and destinations are outside the property."),
  "C25": (T + "every entry of the tables that the specification computes compared with the real functions",
   A + "algebraic laws are checked on the specification; functions over the reals are terms of the specification, evaluated with 60 digits, whose derivatives are checked against difference quotients. " + R),
  "C26": (T + "walks over every transition of the initialisation model replayed; the values of the random helpers judged by TLC",
   A + "draws are opaque: values of equal origin must be equal, values of related origin related by the spread. The shape of a distribution is judged on 20000 draws of fixed seeds with a margin of six deviations. " + R + "Layers of one model may draw from the same stream."),
  "C27": (T + "every explored table and walks over every pair of questions replayed on readers of real files",
   A + "the expected data set is the specification's; number texts are chosen with many spellings. Archives of CIFAR images, whose reader always announces 10000 records, are read in C10 only. " + R),
  "C28": (T + "histories sampled from all the other models replayed in the real code built with address and undefined behaviour sanitizers",
   A + "the specifications give the histories; a history conforms if no step touches anything outside live objects and its end leaves no memory. " + R + "Running out of stack on deep nesting is judged in C01 and C04."),
  "C29": (T + "training histories with real threads and pairs of histories in two threads replayed under the thread sanitizer",
   A + "TrainRace states which accesses the tasks of each kind of training make and checks that no two conflict; the accesses of the real threads are watched by the thread sanitizer (happens-before, so a race is found whether or not the schedule made it visible), after a canary has shown that it watches. " + R + "Histories that use files of fixed names are not paired."),
}
