"""Source of properties.jsonl and MANIFEST.json (run: python3 meta/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe,
                               hook_needed=hook)))


prop('C01', 'Labels keep their content through every form and rewriting',
     "A gate, layer or sub-circuit label keeps its name, state-space labels, arguments, time, repetitions and components through pickling, JSON-style reconstruction, its text form and its native form, and two labels are equal exactly when those contents (time aside) are, with equal hashes. "
     "Renaming changes only the matching names, relabelling changes only the state-space labels, and expanding sub-circuits gives exactly the layers that the label stands for.",
     ['inputs'], "all labels built from a small alphabet of names, state-space labels (ints, digit strings, strings), arguments and times, nested up to depth 2 (layers of gates, sub-circuits with repetitions), and all pairs of them",
     "the unit tests build a dozen labels of the common shapes; names, times, arguments and nesting interact in code paths (one class per shape) that no test combines",
     ['pygsti/objects/label.py'],
     [('one class per label shape, chosen by the constructor', 'pygsti/objects/label.py:Label.__new__'),
      ('reduce / tonative / str / replacename / map_state_space_labels / expand_subcircuits', 'pygsti/objects/label.py')],
     ['Label and its methods', 'pickle', 'Circuit string parser'])

prop('C02', 'Circuit text is parsed to what it says, by both parsers, and printed back',
     "Every string of the circuit language denotes one sequence of layers (products, powers, parallel layers, sub-circuits, arguments, times, line labels), and parsing it yields exactly those layers and lines whichever of the two parser implementations is used. "
     "Any circuit's own text form parses back to an equal circuit with the same lines (a lone repeated gate reading as its repetitions), and malformed strings are refused rather than misread.",
     ['inputs'], "all strings generated by the circuit grammar up to a nesting/size bound (each with its denotation built alongside), and all strings over the grammar's token alphabet up to a length bound, on both parser implementations",
     "the tests parse a few dozen fixed strings with whichever implementation happens to be importable; the two hand-written recursive-descent parsers are never compared, and rejection is tested on a handful of strings",
     ['pygsti/io/circuitparser/__init__.py', 'pygsti/io/circuitparser/slowcircuitparser.py', 'pygsti/io/circuitparser/fastcircuitparser.pyx', 'pygsti/objects/circuit.py'],
     [('recursive descent over prep/gate/povm segments', 'pygsti/io/circuitparser/slowcircuitparser.py:_get_next_lbls'),
      ('Cython twin', 'pygsti/io/circuitparser/fastcircuitparser.pyx:get_next_lbls'),
      ('text form of a circuit', 'pygsti/objects/circuit.py:_op_seq_to_str')],
     ['CircuitParser.parse', 'Circuit(string)', 'Circuit.str'])

prop('C03', 'Circuit editing acts like editing a grid of layers and lines',
     "Any sequence of editing operations on an editable circuit (setting, inserting, deleting and clearing layers, lines and labels; inserting layers and circuits; appending, tensoring and replacing with circuits; renaming gates and lines; reordering and trimming lines; freezing) leaves it holding exactly the labels that the same sequence leaves in a plain list of layers, each a list of labels on lines. "
     "No operation loses, duplicates or moves a label it was not asked to.",
     ['histories', 'inputs'], "all sequences of editing operations up to a depth bound over a 2-3 line, up to 3-4 layer circuit, each operation with all its small argument choices, from several initial circuits",
     "each unit test applies one or two operations to one fixed circuit; the interaction of nested layer storage, line bookkeeping and index arithmetic over sequences is not explored",
     ['pygsti/objects/circuit.py'],
     [('layer/line index processing', 'pygsti/objects/circuit.py:Circuit._proc_layers_arg, _proc_lines_arg'),
      ('set/clear/insert/delete primitives', 'pygsti/objects/circuit.py:Circuit.set_labels, clear_labels, insert_idling_layers, insert_idling_lines, delete_layers, delete_lines')],
     ['Circuit public editing methods', 'Circuit.tup', 'Circuit.get_labels'])

prop('C04', 'A frozen circuit is an immutable value with the algebra of sequences',
     "A read-only circuit never changes: its value, hash, text, length and lines are the same before and after it is used as operand of any operation, and equal circuits have equal hashes and compare alike. "
     "Concatenation, repetition, slicing, indexing, replacement of layers or gates, relabelling lines, (de)compression, (un)factoring of repetitions, serialization/parallelization and sub-circuit expansion produce circuits that stand for exactly the layers these operations mean, and pickling or copying returns an equal circuit.",
     ['inputs', 'histories'], "all circuits over a small gate alphabet on 0-2 lines up to a length bound, all pairs/slices/repetition counts, all non-mutating operations",
     "tests check a few operations on one or two circuits each; value semantics under every operation and the algebraic laws over all short circuits are not covered",
     ['pygsti/objects/circuit.py'],
     [('static vs editable circuits, cached hash/tuple/string', 'pygsti/objects/circuit.py:Circuit'),
      ('CompressedCircuit', 'pygsti/objects/circuit.py:CompressedCircuit'),
      ('parallelize / serialize / expand_subcircuits / factorize_repetitions', 'pygsti/objects/circuit.py')],
     ['Circuit operators and methods', 'CompressedCircuit'])

prop('C05', 'A data set holds exactly the data that was added to it',
     "After any history of adding counts or time-stamped outcome series, overwriting or aggregating repeated circuits, removing circuits, renaming, copying and freezing, a data set reports for every circuit exactly the outcomes, times, repetitions, counts, totals, fractions and auxiliary information that the history put there, and its circuits, outcome labels and length agree with it. "
     "A copy starts equal and never shares later changes; a frozen data set refuses additions.",
     ['histories'], "all histories of data-set operations up to a depth bound over 2-3 circuits and 2-3 outcomes (counts and raw time series), in every collision mode and initial configuration",
     "tests exercise fixed single histories; index bookkeeping across circuits, outcome tables, repetition arrays and the cached counts over operation sequences is not explored",
     ['pygsti/objects/dataset.py', 'pygsti/objects/labeldicts.py'],
     [('per-circuit index and parallel outcome/time/repetition arrays', 'pygsti/objects/dataset.py:DataSet'),
      ('views of one circuit\'s data with cached counts', 'pygsti/objects/dataset.py:_DataSetRow'),
      ('freezing: consolidation into one array with slices', 'pygsti/objects/dataset.py:DataSet.done_adding_data')],
     ['DataSet and its rows'])

prop('C06', 'Derived and stored data sets agree with the data they come from',
     "Selecting circuits, selecting a time window, merging or marginalising outcomes, rewriting circuits, restricting counts to equal times, thawing, and saving to and loading from the binary or pickle form yield a data set holding exactly the corresponding data of the original, for editable and frozen originals alike. "
     "The original is left unchanged, and chains of these operations compose.",
     ['histories', 'inputs'], "all chains up to a depth bound of derivation/persistence operations, from all initial data sets of a small family (static and editable, with and without repetitions, time-dependent or not)",
     "each derivation is tested once on one data set; chains (derive from a derived, possibly frozen, possibly reloaded set) are where index bookkeeping goes wrong and are not tested",
     ['pygsti/objects/dataset.py'],
     [('truncate / time_slice / merge_outcomes / process_circuits / copy_nonstatic', 'pygsti/objects/dataset.py:DataSet'),
      ('binary form', 'pygsti/objects/dataset.py:DataSet.save, load, __getstate__, __setstate__')],
     ['DataSet public methods'])

prop('C07', 'A collection of data sets returns the members it was given',
     "After any history of adding and querying data sets in a multi-data-set, each named member (and the collection's circuits, outcome labels, names and auxiliary information) reads back exactly as the data set that was added, whatever the order of circuits and outcomes in it. "
     "Combined data sets hold the sums of their parts, mismatched additions are refused without damage, and copying, pickling and saving/loading preserve the whole collection.",
     ['histories'], "all histories up to a depth bound of add/aggregate/copy/pickle/save-load over a small family of frozen data sets differing in circuit order, outcome sets, repetitions and times",
     "the tests build one collection from two aligned data sets; shared indices across members built in different orders are not exercised",
     ['pygsti/objects/multidataset.py', 'pygsti/objects/dataset.py'],
     [('shared circuit and outcome indices, per-member arrays', 'pygsti/objects/multidataset.py:MultiDataSet')],
     ['MultiDataSet public methods'])

prop('C08', 'Text files read back as what was written',
     "Data sets, multi-data-sets, circuit lists, circuit dictionaries and models written to pyGSTi's text formats are read back equal: same circuits and lines in the same order, same outcomes, counts, frequencies, times and repetitions, same comments/auxiliary information where the format carries them, and the same operators and parameterization type. "
     "Reading again through the library's cache of a parsed file never returns stale content.",
     ['inputs', 'histories'], "all objects of a small family (circuits with every label shape, fixed-column and expanded formats, zero counts, time series, sparse outcomes) through every writer option; all short histories of write/read/overwrite with the cache enabled",
     "tests write and read one or two typical objects; format corner cases (empty circuits, zero counts, many-qubit outcome labels, times, fixed column subsets) are not enumerated",
     ['pygsti/io/writers.py', 'pygsti/io/stdinput.py', 'pygsti/io/loaders.py'],
     [('writers', 'pygsti/io/writers.py'), ('line-oriented parsers', 'pygsti/io/stdinput.py:StdInputParser'), ('loaders with cache', 'pygsti/io/loaders.py')],
     ['pygsti.io.write_*', 'pygsti.io.load_*'])

prop('C09', 'Serialized objects decode to equal objects',
     "Encoding any supported value - nested containers of numbers, strings, arrays, sets, slices and ranges, and pyGSTi's labels, circuits, bases, data sets, models and their parts, circuit structures and results - with the JSON or MessagePack codec (or pickle) and decoding it returns an equal value of the same type.  "
     "In particular a decoded model has the same parameters, parameter indices and outcome probabilities, and stays independent of the original.",
     ['inputs'], "all nestings to depth 2 over one representative of each supported type in each container position, and one object of each pyGSTi type in each of its parameterizations, through all three codecs",
     "the codec tests encode a few composite objects; which member of a nested structure silently changes type (tuple/list, dict order, numpy scalar, int key) is an all-inputs question",
     ['pygsti/io/jsoncodec.py', 'pygsti/io/json.py', 'pygsti/io/msgpack.py'],
     [('tagged recursive encoding and decoding', 'pygsti/io/jsoncodec.py:encode_obj, decode_obj')],
     ['pygsti.io.json', 'pygsti.io.msgpack', 'pickle'])

prop('C10', 'Experiment designs and their data survive the directory format',
     "An experiment design (simple, circuit-lists, combined, simultaneous, GST, RB or nested) together with its data, written to a directory and read back, has the same type, name tree, circuits, circuit lists and qubit labels, and gives the same data for every node of the tree. "
     "Every sub-node's view of the data contains exactly the circuits of that node with the counts of the whole, and writing again over an existing directory replaces what was there.",
     ['inputs', 'histories'], "all design trees up to depth 2 over a small family of leaf designs, with single or per-node data, written, re-read, filled and re-read again",
     "the protocol tests write one design of a few kinds; nesting of designs, name handling and repeated writes are not enumerated",
     ['pygsti/protocols/protocol.py', 'pygsti/protocols/treenode.py', 'pygsti/io/metadir.py', 'pygsti/protocols/gst.py', 'pygsti/protocols/rb.py'],
     [('tree of named nodes with directories', 'pygsti/protocols/treenode.py:TreeNode'), ('typed member files', 'pygsti/io/metadir.py'), ('data views per node', 'pygsti/protocols/protocol.py:ProtocolData')],
     ['ExperimentDesign', 'ProtocolData', 'pygsti.io.load_*_from_dir'])

prop('C11', 'A model\'s parameter vector and its operators never disagree',
     "After any history of setting, replacing, re-parameterizing and removing members, loading parameter vectors, and editing members in place, the model's parameter vector determines its operators: every member's own parameters are the entries of the vector at its parameter indices, indices cover the vector without gaps, and shared parameters stay shared. "
     "Loading a vector reads back the same vector and gives every operator and probability the value it has in a freshly built model loaded with the same vector.",
     ['histories'], "all histories of model operations up to a depth bound over small 1-qubit models (full, TP, CPTP, static and shared-member parameterizations), with small alphabets of operators and vectors",
     "tests load a vector once into a finished model; the lazy re-indexing (dirty flags, index rebuilding after removal/replacement) only matters over sequences of operations",
     ['pygsti/objects/model.py', 'pygsti/objects/modelmember.py', 'pygsti/objects/labeldicts.py', 'pygsti/objects/explicitmodel.py'],
     [('lazy rebuild of the parameter vector', 'pygsti/objects/model.py:OpModel._rebuild_paramvec, _clean_paramvec'),
      ('index allocation and sharing', 'pygsti/objects/modelmember.py:ModelMember.allocate_gpindices'),
      ('member dictionaries', 'pygsti/objects/labeldicts.py:OrderedMemberDict')],
     ['Model.to_vector/from_vector', 'member access', 'Model.probs'])

prop('C12', 'Copies of models are equal and independent',
     "A copy, pickle round trip or re-parameterized copy of a model (explicit, or implicit with local or cloud noise) has the same operators, parameters and outcome probabilities as the original, and no later change to either - loading parameters, replacing, editing or transforming members - is visible in the other. "
     "Computing with a model never changes its parameters or operators.",
     ['histories'], "all pairs (way of copying, later mutation on either side) and all sequences of two mutations, over models of every parameterization and kind",
     "aliasing bugs need a copy followed by a specific mutation on a specific side; tests check copies once for equality",
     ['pygsti/objects/model.py', 'pygsti/objects/modelmember.py', 'pygsti/objects/explicitmodel.py', 'pygsti/objects/implicitmodel.py', 'pygsti/objects/localnoisemodel.py'],
     [('deep copy with parent re-linking', 'pygsti/objects/model.py:OpModel.copy, pygsti/objects/labeldicts.py:OrderedMemberDict.copy'), ('representation sharing', 'pygsti/objects/operation.py')],
     ['Model.copy', 'pickle', 'Model methods'])

prop('C13', 'All simulators give the probabilities quantum mechanics assigns',
     "For every circuit, the outcome probabilities computed by the matrix-based, map-based and exact path-integral simulators, with the compiled or the pure-Python representations, for dense, factored, composed and embedded members, equal the probability obtained by multiplying out the preparation, the gates' matrices in circuit order and the measurement. "
     "With trace-preserving members they sum to one, with instruments the intermediate outcomes are included, repeated and nested sub-circuits act as the circuit written out, and a circuit on some of a model's lines gives the marginal distribution over those (`Model.probs` in the model's qubit order, `Circuit.simulate` in the circuit's). "
     "In a cloud-noise model a gate's noise acts on exactly the qubits within the stated number of hops, idle noise on neighbours.",
     ['inputs', 'configurations'], "all circuits up to a length bound over small 1- and 2-qubit gate sets (incl. preparation/measurement choices, instruments, parallel layers and sub-circuits) x simulators x representations x parameterizations, against an independent numpy evaluation",
     "tests compare a few circuits on default settings; agreement across simulators, representations and member kinds is a cross product that no test enumerates",
     ['pygsti/objects/matrixforwardsim.py', 'pygsti/objects/mapforwardsim.py', 'pygsti/objects/termforwardsim.py', 'pygsti/objects/replib', 'pygsti/objects/model.py', 'pygsti/objects/operation.py'],
     [('circuit compilation into state/ops/effects', 'pygsti/objects/model.py:OpModel.simplify_circuit'), ('forward simulators', 'pygsti/objects/*forwardsim.py'), ('compiled and pure-Python representations', 'pygsti/objects/replib')],
     ['Model.probs', 'Model.pr'])

prop('C14', 'Bulk evaluation equals evaluating each circuit alone',
     "For any list of circuits (repeated, nested, prefixes of one another, empty), any restriction of the outcomes, any way of splitting the evaluation into sub-trees or memory blocks and any number of workers, the bulk-computed probabilities and derivatives of each circuit equal those computed for the circuit by itself, and each circuit's results are stored where its look-up says. "
     "Splitting assigns every circuit to exactly one part.",
     ['inputs', 'configurations'], "all lists (as multisets and orders) of up to 3-5 circuits over a small gate alphabet x tree kind x all split counts/sizes x block sizes",
     "the evaluation-tree construction and splitting heuristics depend on the whole list; tests use two or three fixed lists",
     ['pygsti/objects/evaltree.py', 'pygsti/objects/matrixevaltree.py', 'pygsti/objects/mapevaltree.py', 'pygsti/objects/matrixforwardsim.py', 'pygsti/objects/mapforwardsim.py'],
     [('evaluation trees with index permutations', 'pygsti/objects/*evaltree.py'), ('bulk fills into one array with element look-ups', 'pygsti/objects/*forwardsim.py')],
     ['Model.bulk_probs', 'Model.bulk_fill_probs', 'Model.bulk_fill_dprobs', 'EvalTree'])

prop('C15', 'Derivatives are the derivatives of the probabilities',
     "Analytically computed first and second derivatives of circuit outcome probabilities (and of operator products and of model members) with respect to model parameters equal the derivatives of the computed values themselves, for every simulator, parameterization, parameter subset and block ordering. "
     "Selecting a subset of parameters selects the corresponding columns.",
     ['inputs', 'configurations'], "all circuits up to a length bound x models in every parameterization x simulators x parameter subsets, against high-order finite differences of the same library's values",
     "each parameterization carries its own hand-derived Jacobian/Hessian and index bookkeeping; tests check some members at one point",
     ['pygsti/objects/matrixforwardsim.py', 'pygsti/objects/mapforwardsim.py', 'pygsti/objects/operation.py', 'pygsti/objects/spamvec.py', 'pygsti/objects/povm.py', 'pygsti/objects/replib'],
     [('chain rule over the product tree', 'pygsti/objects/matrixforwardsim.py'), ('deriv_wrt_params / hessian_wrt_params', 'pygsti/objects/operation.py, spamvec.py')],
     ['Model.dprobs, hprobs, bulk_dproduct', 'ModelMember.deriv_wrt_params'])

prop('C16', 'Gauge transformations do not change any prediction',
     "Transforming a model by any invertible element of its gauge group changes its operators as a similarity transformation and leaves the outcome probabilities of every circuit unchanged, transforming by the inverse restores the model, and group elements compose, invert and round-trip through their parameters. "
     "Gauge optimization returns such a transform, never with a worse objective than the start.",
     ['inputs', 'histories'], "all circuits up to a length bound x gauge-group kinds x a grid of group elements and two-element products x parameterizations that support them",
     "tests transform one model by one element",
     ['pygsti/objects/gaugegroup.py', 'pygsti/objects/explicitmodel.py', 'pygsti/objects/operation.py', 'pygsti/objects/spamvec.py', 'pygsti/algorithms/gaugeopt.py'],
     [('group elements', 'pygsti/objects/gaugegroup.py'), ('member transforms', 'pygsti/objects/operation.py, spamvec.py, povm.py, instrument.py')],
     ['Model.transform', 'gaugeopt_to_target', 'GaugeGroupElement'])

prop('C17', 'Every kind of operator is faithfully described by its parameters',
     "For every kind of operator, state, effect, POVM and instrument and every parameter vector, loading the vector reads back the same vector, the dense matrix, the fast representation and the action on states agree, and converting to another parameterization that can hold the object keeps its matrix. "
     "Composing, embedding, exponentiating, inverting-transform and depolarizing/rotating change the matrix exactly as the corresponding matrix operation.",
     ['inputs', 'histories'], "all member kinds x a grid of parameter vectors x all ordered pairs of parameterizations x all short sequences of in-place operations, against plain matrix algebra",
     "there are about 40 member classes each with its own parameter packing; tests use one instance each and mostly compare classes to themselves",
     ['pygsti/objects/operation.py', 'pygsti/objects/spamvec.py', 'pygsti/objects/povm.py', 'pygsti/objects/instrument.py', 'pygsti/objects/replib'],
     [('parameter packing per class', 'pygsti/objects/operation.py, spamvec.py'), ('representations', 'pygsti/objects/replib/*'), ('convert', 'pygsti/objects/operation.py:convert')],
     ['LinearOperator, SPAMVec, POVM, Instrument APIs'])

prop('C18', 'Constrained parameterizations can only express allowed operators',
     "Whatever values its parameters take, an operator in a trace-preserving parameterization preserves trace, one in a completely-positive parameterization has a positive Choi matrix, unitary ones are unitary, static ones never change, POVM effects sum to the identity and instrument elements sum to a trace-preserving map. "
     "A model therefore stays in its declared class after any parameter update.",
     ['inputs', 'histories'], "all constrained parameterizations x a grid of parameter vectors (including extreme and degenerate values) x short histories of updates",
     "tests load one or two random vectors; constraint violation at special values (zero, negative, large, degenerate) is not covered",
     ['pygsti/objects/operation.py', 'pygsti/objects/spamvec.py', 'pygsti/objects/povm.py', 'pygsti/objects/instrument.py', 'pygsti/tools/lindbladtools.py'],
     [('first row / complement / Cholesky / exponential constructions', 'pygsti/objects/operation.py, povm.py, instrument.py')],
     ['Model.from_vector', 'member todense'])

prop('C19', 'Clifford arithmetic in symplectic form is exact',
     "The symplectic (matrix and phase vector) description of Clifford operations composes, inverts, embeds, permutes, factors into circuits and converts to and from unitaries and Pauli actions exactly as the unitaries do, for every Clifford. "
     "Enumerations and random draws yield each valid Clifford and only valid ones.",
     ['inputs'], "all 1- and 2-qubit Cliffords (24 and 11520 up to phase) and all pairs/triples from generating subsets, all qubit embeddings to 3 qubits; random draws with every outcome of the random bits enumerated where feasible",
     "tests check a few random Cliffords",
     ['pygsti/tools/symplectic.py', 'pygsti/tools/matrixmod2.py'],
     [('symplectic composition and inversion with phases', 'pygsti/tools/symplectic.py'), ('mod-2 linear algebra', 'pygsti/tools/matrixmod2.py')],
     ['pygsti.tools.symplectic functions'])

prop('C20', 'Stabilizer simulation agrees with full state simulation',
     "For every Clifford circuit the stabilizer simulator returns the same outcome probabilities as full state-vector or density-matrix simulation, including for repeated, parallel and embedded gates, and the stabilizer state, extracted amplitudes and global phase are those of the state vector. ",
     ['inputs', 'configurations'], "all circuits up to a depth bound over Clifford gates on 1-3 qubits (breadth-first over distinct stabilizer states), with compiled and pure-Python representations, all outcomes",
     "tests simulate a few fixed circuits",
     ['pygsti/objects/stabilizer.py', 'pygsti/objects/replib/slowreplib.py', 'pygsti/objects/replib/fastreps.cpp', 'pygsti/objects/operation.py'],
     [('stabilizer frames with view filters', 'pygsti/objects/stabilizer.py:StabilizerFrame'), ('C++ twin', 'pygsti/objects/replib/fastreps.cpp')],
     ['Model.probs with CHP/stabilizer evolution', 'StabilizerFrame'])

prop('C21', 'Compiled Clifford circuits implement their target',
     "A circuit produced by any of the Clifford, CNOT, stabilizer-state-preparation, stabilizer-measurement or Pauli-layer compilers implements exactly the requested operation (or its stated up-to-Paulis or up-to-local equivalence), uses only the native gates of the device, and only acts between connected qubits. ",
     ['inputs', 'configurations'], "all 1- and 2-qubit Cliffords and a systematic family of 3-qubit ones (breadth-first products of generators) x device connectivities and native gate sets x compiler choices, with the internal random choices enumerated or fixed",
     "tests compile one or two random Cliffords on one device",
     ['pygsti/algorithms/compilers.py', 'pygsti/objects/processorspec.py', 'pygsti/objects/compilationlibrary.py'],
     [('Gaussian elimination compilers', 'pygsti/algorithms/compilers.py'), ('compilation libraries', 'pygsti/objects/compilationlibrary.py')],
     ['compile_* functions', 'ProcessorSpec'])

prop('C22', 'Benchmarking circuits have the ideal outcome they are declared with',
     "Every randomized-benchmarking, direct-RB and mirror circuit the library samples has, without noise, the declared outcome with certainty, has the requested length, and uses only the device's native gates on the requested qubits. "
     "This holds for every outcome of the random choices and for every randomization option.",
     ['inputs', 'configurations'], "all outcomes of the random number choices (explored as a decision tree up to a bound) x device specifications x lengths x options on 1-3 qubits",
     "tests draw a handful of circuits and mostly check they can be generated",
     ['pygsti/algorithms/randomcircuit.py', 'pygsti/algorithms/compilers.py', 'pygsti/protocols/rb.py'],
     [('samplers', 'pygsti/algorithms/randomcircuit.py')],
     ['random_* functions', 'RB experiment designs'])

prop('C23', 'GST circuit lists contain exactly the circuits their definition asks for',
     "The circuit lists and structures made for gate set tomography contain, for each germ, each maximum length, each germ-power rule and each fiducial pair, exactly the circuits fiducial + germ power + fiducial (after the stated truncation, pair reduction, label translation and filtering to available data), each once and in the documented order, and nested lists are nested. "
     "Every plaquette of a structure indexes the circuits it says it does.",
     ['inputs', 'configurations'], "all combinations of small fiducial and germ sets, maximum-length lists, truncation schemes, nesting options, fiducial-pair selections and translations",
     "tests build lists for one standard gate set with default options and count them",
     ['pygsti/construction/gstcircuits.py', 'pygsti/construction/circuitconstruction.py', 'pygsti/objects/circuitstructure.py'],
     [('list and structure builders', 'pygsti/construction/gstcircuits.py'), ('plaquettes', 'pygsti/objects/circuitstructure.py')],
     ['make_lsgst_lists', 'make_lsgst_structs', 'make_elgst_*', 'LsGermsStructure'])

prop('C24', 'Objective functions are the sum over circuits of their definition',
     "The log-likelihood and chi-squared functions (and their regularized, clipped, weighted and time-dependent variants) equal the sum over circuits and outcomes of their defining formula, including unobserved outcomes; their gradients and Hessians are those of the value; and every way of evaluating them - per circuit, least-squares vector, blocked, split over workers, through the cached builder - gives the same number. "
     "The value is minimal where predicted probabilities equal observed frequencies.",
     ['inputs', 'configurations'], "all small data sets (count vectors on a grid, incl. zero, missing and unobserved outcomes) x models on a grid of parameter values (incl. probabilities at and below the clipping thresholds) x all options",
     "tests compare fixed numbers for one data set",
     ['pygsti/objects/objectivefns.py', 'pygsti/tools/likelihoodfns.py', 'pygsti/tools/chi2fns.py'],
     [('objective function classes', 'pygsti/objects/objectivefns.py'), ('stand-alone functions', 'pygsti/tools/likelihoodfns.py, chi2fns.py')],
     ['pygsti.tools.logl*, chi2*', 'ObjectiveFunction classes'])

prop('C25', 'A fit never returns a worse model than it started from',
     "Model fitting by chi-squared or maximum likelihood, single or iterated, returns a model of the declared parameterization whose objective is no worse than the starting model's (or the previous iteration's) on the same data, and on noiseless data from a model in the class it reproduces the data. "
     "The least-squares optimizer never returns a point with a larger residual norm than its starting point, whatever the options.",
     ['inputs', 'configurations'], "all starting points on a grid x small data sets x optimizer options x parameterizations; all small polynomial residual functions on a grid of coefficients",
     "tests run one fit and compare with a stored result",
     ['pygsti/optimize/customlm.py', 'pygsti/algorithms/core.py', 'pygsti/optimize/optimize.py'],
     [('Levenberg-Marquardt with damping and best-point tracking', 'pygsti/optimize/customlm.py:custom_leastsq'), ('iterated fits', 'pygsti/algorithms/core.py')],
     ['custom_leastsq', 'do_mc2gst', 'do_mlgst', 'do_iterative_mlgst'])

prop('C26', 'Linear inversion reproduces any model from its exact probabilities',
     "Linear-inversion tomography on exact (noiseless) frequencies of any model, with any informationally complete fiducials, returns a model that predicts the same outcome probabilities for every circuit, in the gauge of the given target, regardless of the order of fiducials, of redundant fiducials or of extra circuits in the data. ",
     ['inputs', 'configurations'], "all models on a grid of perturbations of a 1-qubit gate set x orders/subsets/superset of fiducials x options, all test circuits to a length bound",
     "tests run it on one model and compare with a stored one",
     ['pygsti/algorithms/core.py'],
     [('linear inversion', 'pygsti/algorithms/core.py:do_lgst')],
     ['do_lgst', 'pygsti.tools'])

prop('C27', 'Distributing work over processes never loses, duplicates or changes results',
     "Whatever the number of processes and of work items, every item is owned by exactly one process or sub-group, gathered results land at their own position exactly once on every process, and the whole of a computation distributed over several processes (probabilities, derivatives, likelihoods, fits) equals the one-process result on every rank. "
     "No order of message arrival or scheduling of the processes leads to deadlock or a different result.",
     ['schedules', 'configurations'], "all (number of processes, number of items) up to bounds for the distribution helpers; all interleavings up to a preemption bound of the collective calls of 2-3 simulated processes on the real code; computations on 1-4 simulated processes",
     "the MPI tests need an MPI launcher and are not run; sequential runs take the comm-is-None path everywhere",
     ['pygsti/tools/mpitools.py', 'pygsti/objects/matrixforwardsim.py', 'pygsti/objects/mapforwardsim.py', 'pygsti/objects/resourceallocation.py'],
     [('index and slice distribution', 'pygsti/tools/mpitools.py:distribute_indices, distribute_slice'), ('gather of slices', 'pygsti/tools/mpitools.py:gather_slices')],
     ['pygsti.tools.mpitools', 'Model.bulk_fill_* with comm'])

prop('C28', 'Cached computations return what the computation would',
     "A value obtained through the library's computation cache equals what calling the function afresh with the same arguments returns, whatever calls came before, however the arguments were passed (positional, keyword, default), and whether or not the cache was pickled and reloaded or arguments were mutated in between. "
     "Arguments that differ in content never share an entry.",
     ['histories', 'inputs'], "all sequences of calls up to a depth bound over functions and argument values that collide in value, type, order or hash, with pickling and argument mutation as interleaved steps",
     "tests call one function twice",
     ['pygsti/objects/smartcache.py'],
     [('digest of arguments and table of results', 'pygsti/objects/smartcache.py:SmartCache, digest')],
     ['SmartCache.cached_compute', 'smart_cached'])

prop('C29', 'Polynomials compute like polynomials',
     "Adding, multiplying, scaling, powering, differentiating, re-indexing, evaluating and compacting polynomials of any number of variables gives the polynomial (and values) that these operations mean, in the compiled and in the pure-Python implementation alike. ",
     ['inputs', 'histories'], "all polynomials of bounded degree/terms over 3 variables with small coefficients, all pairs, all operation chains to depth 2, evaluated on a grid and compared with a dictionary-based reference",
     "tests use a couple of fixed polynomials",
     ['pygsti/objects/polynomial.py', 'pygsti/objects/replib/slowreplib.py', 'pygsti/objects/replib/fastreplib.pyx', 'pygsti/tools/compattools.py', 'pygsti/objects/opcalc'],
     [('integer-encoded monomials', 'pygsti/objects/polynomial.py, pygsti/objects/replib'), ('compact evaluation', 'pygsti/objects/opcalc')],
     ['Polynomial', 'bulk_eval_compact_polys'])

prop('C30', 'Changes of basis and of representation are inverse and consistent',
     "Converting states, operators and superoperators between any two built-in bases (including direct sums, tensor products and sparse forms), between unitaries, process matrices, Choi matrices and error generators, and back, returns the original, and every basis's own claims (trace-orthonormal, Hermitian, real, contains identity, element labels) hold of its elements. ",
     ['inputs', 'configurations'], "all ordered pairs (and triples) of built-in basis kinds x small dimensions and block structures x all matrix units and a generating set of operators",
     "tests convert one or two matrices between a few basis pairs",
     ['pygsti/objects/basis.py', 'pygsti/tools/basistools.py', 'pygsti/tools/basisconstructors.py', 'pygsti/tools/jamiolkowski.py', 'pygsti/tools/optools.py', 'pygsti/tools/lindbladtools.py'],
     [('basis objects', 'pygsti/objects/basis.py'), ('change_basis', 'pygsti/tools/basistools.py'), ('error generators and projections', 'pygsti/tools/optools.py')],
     ['Basis', 'change_basis', 'jamiolkowski_iso', 'unitary_to_process_mx', 'error_generator'])

prop('C31', 'Device graphs answer connectivity questions correctly',
     "For any device graph, neighbours, edges, connectivity, shortest paths, distances, sub-graphs and directional steps are those of the mathematical graph, for directed and undirected graphs and for any sequence of edge additions, and copies are independent. "
     "A device specification reports exactly the gates and connections it was given.",
     ['inputs', 'histories'], "all graphs on up to 4 nodes (directed: up to 3), all node pairs and subsets, all edge-addition sequences, against a brute-force reference",
     "tests use a few standard layouts",
     ['pygsti/objects/qubitgraph.py', 'pygsti/objects/processorspec.py'],
     [('connectivity matrix with lazily computed predecessors and distances', 'pygsti/objects/qubitgraph.py:QubitGraph')],
     ['QubitGraph', 'ProcessorSpec'])

prop('C32', 'Simulated data follow the model and the request exactly',
     "Data generated from a model contain every requested circuit with exactly the requested number of samples (per circuit or per time), outcome counts that are non-negative, sum to the request and never include an outcome of zero probability; with no sampling error they equal probability times samples, and the same seed always reproduces the same data. "
     "Aggregated, sub-selected or marginalised simulated data agree with the probabilities' own aggregates.",
     ['inputs', 'configurations'], "all sample-error modes x circuits to a length bound x sample counts x times x seeds x ways of giving the model (model, data set, dictionary); random draws replaced by an enumerated source where outcome matters",
     "tests generate one data set per mode",
     ['pygsti/construction/datasetconstruction.py'],
     [('generate_fake_data', 'pygsti/construction/datasetconstruction.py')],
     ['generate_fake_data', 'merge_outcomes', 'filter_dataset'])
