G = S + "graph.cpp"
GH = I + "graph.hpp"

P("P05", "A proposal updates every affected symbol, in order, and ends one way",
  "Whatever decisions a proposal changes, every symbol that depends on one of them is updated before the outcome is decided, never before another symbol it depends on; "
  "the acceptance test is asked exactly once, then either all of the changed symbols are committed or all of them are reverted. "
  "Initialising or resetting a state likewise covers every symbol concerned in dependency order, and no traversal leaves marks behind that affect the next one.",
  ["histories", "inputs"], "all graphs, all sets of changed symbols, both acceptance outcomes, all sequences of proposals",
  "The bundled suite drives no proposals at all; a dropped or misordered update shows only for graph shapes with a particular diamond or sharing structure.",
  [G, GH],
  [("descendants: marking traversal over successors", G), ("propose: propagate, accept, then commit or revert", G), ("topological_sort", G), ("initialize_state / recursive_initialize / recursive_reset", G)],
  ["values of every symbol after Graph::propose, initialize_state and recursive_reset"],
  [("topological index", "position in the dependency order, -1 before sorting", GH)])
claim("P05", "path-effect analysis of the graph traversals: effect sequence, ordering key and coverage of each loop",
      STATIC + "The proposal's paths must contain: collection of the changed nodes and all their successors (a worklist that marks and visits each once, unconditionally), a sort by ascending topological index, an unconditional propagate on each, exactly one acceptance call, then commit on every collected node on the accepting path and revert on every one on the other; sort, initialise and reset traversals are checked for coverage, order and cleared marks. " + TRUST)

P("P06", "Every operand of a symbol is linked to it, in order, on both sides",
  "However a symbol is constructed, each symbol it was given as operand becomes its predecessor exactly once per occurrence and in the order given, and it becomes their successor "
  "at the matching position. Therefore a change of any operand always reaches the symbol, and no operand can be discarded while it is in use.",
  ["inputs"], "all symbol kinds, all constructors, all operand combinations including repeated operands",
  "Tests build a few operand combinations; an operand that is not linked (say when the same symbol is given twice) still computes right initially and only fails under propagation or pruning.",
  [GH] + NODES + HDRS,
  [("add_predecessor / add_successor pair", GH), ("node constructors", NODES[5])],
  ["predecessors()/successors() of every node"])
claim("P06", "path-effect analysis of all node constructors: operand parameters vs. link calls (coverage, order, multiplicity), both-ends rule for the linking primitive",
      STATIC + "Every completing path of every constructor of every concrete node class (and later additions of operands) must link each node-typed parameter, and each element of node-list parameters, in parameter order; the linking primitive must extend both lists with matching position, and nobody else may change the lists. " + TRUST)

P("P07", "A rejected construction leaves the model as it was",
  "When a symbol refuses its arguments (wrong shape, type, domain or operand), nothing of the failed construction stays behind: no operand keeps a link to the rejected symbol and the "
  "model's lists are unchanged. A model that is already locked (sorted) refuses a new symbol before anything is changed.",
  ["inputs"], "all symbol kinds and constructors, every point at which construction can be refused",
  "Tests check that the error is raised, not what is left behind; a dangling link shows only when the surviving operand is later traversed, updated or freed.",
  [GH] + NODES + HDRS,
  [("argument checks before add_predecessor in constructors", NODES[4]), ("emplace_node", GH)],
  ["successors() of the operands after a refused construction"])
claim("P07", "path-effect analysis of all node constructors: no link or foreign write precedes a throw on any path",
      STATIC + "On every throwing path of every constructor (including throws in called helpers and later loop iterations) no link call and no write to another node may come before the throw; adding to the graph must test the locked flag first and grow the lists only after construction succeeded. Exceptions thrown by allocation are outside. " + TRUST)

P("P08", "States are independent of each other and of the model",
  "Working on one state (moving, propagating, accepting, rejecting, reading) changes only that state's own data: neither the model nor any other state changes, "
  "nothing is kept in storage shared between calls, and reading changes nothing at all. A copied state is complete and independent: it has every value the original had, and later changes of either one do not show in the other.",
  ["histories", "schedules"], "all symbols, all numbers of states of one model, all interleavings of work on them (from one or several threads), copies taken at any point",
  "The bundled tests work on one state at a time; data leaking through a node member, a static or a shared pointer shows only when two states are used alternately or concurrently.",
  [GH] + NODES + HDRS + [I + "state.hpp"],
  [("node state slot by topological index", GH), ("copy() of the node state data", S + "nodes/_state.hpp"), ("const methods with mutable members", HDRS[1])],
  ["values of a second state, or of a copy, after working on the first"],
  [("State", "one data object per node, indexed by topological index", I + "state.hpp")])
claim("P08", "effect analysis of all state-taking methods (write roots), copy-completeness of all state data types",
      STATIC + "Each written location of every method taking a State must be rooted in that state's own slot for this node; const methods write nothing of the node, there is no mutable static storage; each node "
      "reads its state under its own index with the type it was created with; copy() builds the same type and covers every member with no shared ownership. " + TRUST)

P("P15", "Removing unused symbols removes exactly the unused ones",
  "Symbols that are decisions, the objective or a constraint, symbols that one of those depends on, and symbols that someone still holds (when that is asked for) are never removed, "
  "and every other symbol is. After the removal nothing that remains refers to a removed symbol, the remaining symbols keep their order, and the number removed is returned.",
  ["inputs", "histories"], "all models, all sets of held symbols, any order of construction",
  "Tests remove from a few small models; a wrongly kept or removed symbol depends on the graph's shape and on who holds what, and a left-over link is a dangling pointer that shows much later.",
  [GH, G],
  [("remove_unused_nodes", G), ("expired_ptr / observers of a node", GH), ("remove_unused_symbols", PY + "_model.pyx")],
  ["the symbols of a model after remove_unused_symbols"])
claim("P15", "path-effect analysis of the pruning loop: guard implication per removal, order, unlink-before-delete, index maintenance",
      STATIC + "Along each path, a removal must be guarded by no successors, not a decision, not the objective or a constraint and (when not ignored) not held; every other path must keep the symbol; the visiting order must reach operands "
      "after their users; unlinking must precede destruction and cover all operands; roles lists stay consistent. " + TRUST)

P("P16", "Energy and feasibility are exactly those of the objective and constraints",
  "Only a symbol that is a single fixed number of this model can be the objective, and only a single true/false symbol of it can be a constraint; a refused one leaves the roles as they were. "
  "The energy of a state is the value of the current objective and a state is feasible exactly if every constraint is satisfied in it.",
  ["inputs", "histories"], "all models, states, objective replacements and lists of constraints",
  "Tests set one objective and one or two constraints; acceptance of a dynamic or non-logical symbol, or a constraint dropped from the decision, shows only for specific combinations.",
  [GH, G, PY + "_model.pyx"],
  [("set_objective", G), ("add_constraint", G), ("energy / feasible", G)],
  ["Graph::energy, Graph::feasible"])
claim("P16", "path-effect analysis of role setters and evaluators: guard implication, exactly-once recording, whole-list conjunction",
      STATIC + "Every accepting path of the role setters must be guarded by the scalar/logical tests and record the symbol exactly once, every refusing path must change nothing; energy must read the objective's view in the given state and feasible be the conjunction over all constraints. " + TRUST)

PYSTATIC = ("Decided from the Python/Cython source: a parser of our own for .pyx/.pxd/.py expands each method (with helpers, properties and super calls) into its paths of conditions, calls and stores over symbolic terms. ")

P("P14", "A locked model's symbols cannot change, and locks nest",
  "While a model is locked no symbol can be added to it, removed from it or be given a further operand; the attempt is refused before anything changes. "
  "A model can be changed again exactly when it was released as often as it was locked, on every way out of a locked block, errors included. "
  "Releasing the last lock discards values of symbols that are only valid for the locked order.",
  ["histories", "inputs"], "all sequences of locking, releasing (also by leaving a block through an error), changing the model and reading states",
  "Tests lock once or twice and try one forbidden change; a counter that is off on one way out or a change that slips past the lock shows only for particular nestings.",
  [PY + "_model.pyx", PY + "model.py", PY + "states.pyx", PY + "symbols.pyx", GH],
  [("lock / unlock / is_locked", PY + "_model.pyx"), ("lock() context manager", PY + "model.py"), ("emplace_node refuses when sorted", GH), ("discarding of intermediate states", PY + "states.pyx")],
  ["Model.is_locked(), symbols and states of a model after lock/unlock"],
  [("lock count", "number of locks not yet released", PY + "_model.pyx")])
claim("P14", "path-effect analysis of the lock protocol in Cython/Python and C++: counter algebra, guard-before-effect, release on all exits",
      PYSTATIC + "Lock adds one and sorts, unlock subtracts one and unsorts exactly when the count reaches zero, nobody else writes the count; the context manager releases exactly what it took on normal and error exits; "
      "every adding, removing or operand-extending path is preceded by a refusal on a locked model; intermediate values are discarded on the last release. " + TRUST)

P("P17", "Symbols of different models never mix",
  "Whatever operation combines symbols (constructing a symbol, an operator, an in-place update, setting the objective, adding a constraint), all of them belong to the same model and so does the result. "
  "Mixing symbols of different models is refused, and then both models are unchanged.",
  ["inputs"], "all operations taking symbols, all combinations of symbols of one or several models, any operand position",
  "Tests try a few operations with foreign symbols; each operation and each operand position checks for itself, and a missing check silently links two models so that one uses memory owned by the other.",
  [PY + "symbols.pyx", PY + "_model.pyx", PY + "model.py", PY + "mathematical.py"],
  [("operand model check in the symbol constructors", PY + "symbols.pyx"), ("minimize / add_constraint", PY + "_model.pyx")],
  ["an exception, and the symbols of both models, after combining foreign symbols"])
claim("P17", "path-effect analysis of every symbol constructor and model method: model-identity facts before the C++ emplacement, receiver agreement",
      PYSTATIC + "On every path that creates or changes a C++ node, each operand's model must be shown identical to the model receiving the node (by a refusing comparison, or because it is the model the operand itself supplied), "
      "before anything is changed, and the new symbol is initialised with that model. " + TRUST)

P("P18", "Saving and loading gives back an equal model and its states",
  "A model written to a file and read again has the same symbols with the same parameters, values and operands in the same order, the same objective and constraints, and every initialised state of every decision at its old position; "
  "states that were not initialised stay so. A file whose references do not fit, or states of decisions that do not match, are refused.",
  ["inputs", "histories"], "all models, all parameter values, all numbers and patterns of initialised states, damaged or foreign files",
  "Tests save and load one small example of each symbol; a value that is rounded, dropped for a special parameter or stored under another position shows only for particular models.",
  [PY + "_model.pyx", PY + "symbols.pyx", PY + "states.pyx"],
  [("into_file / from_file", PY + "_model.pyx"), ("_into_zipfile / _from_zipfile of each symbol", PY + "symbols.pyx"), ("_state_into_zipfile / _state_from_zipfile", PY + "symbols.pyx"), ("States.from_file", PY + "states.pyx")],
  ["a model and its states compared with the loaded one"])
claim("P18", "writer/reader composition by path-effect analysis: what each reader passes on, in terms of what the writer stored, compared with the constructor parameter; coverage and guard analysis of the file layout",
      PYSTATIC + "For every symbol class the loader's constructor arguments are rewritten through the writer's members into accessors of the original symbol and must be that parameter; every member read is written, in the same encoding, on every path; "
      "the file loops must cover all symbols, operands in order, roles and initialised states at matching positions; ids read from a file must be range-checked before use. The composition of nested slices is not decided. " + TRUST)

P("P10", "Initial states of decisions always lie in the declared domain",
  "An initial state given for a decision is accepted exactly if it has the declared number of elements, every element lies in the declared range (a whole number where that is declared), no value of a list, set or disjoint part occurs twice, and disjoint parts together hold every element; "
  "accepted values are stored as given, and otherwise an error is raised. Default and random initial states lie in the domain. Bounds or sizes that admit no state are refused when the decision is declared.",
  ["inputs"], "all bounds, shapes and sizes a decision can be declared with, all values given as a state",
  "Tests try one or two bad states per kind of decision; a boundary that is off by one, an element that is not looked at or a missing refusal shows only for particular values and sizes, and the wrong state then breaks what other symbols assume about their operands.",
  [S + "nodes/numbers.cpp", S + "nodes/collections.cpp", I + "nodes/numbers.hpp", I + "nodes/collections.hpp", PY + "symbols.pyx"],
  [("NumberNode::initialize_state / is_valid / default_value / generate_value", S + "nodes/numbers.cpp"), ("CollectionNode::initialize_state and the disjoint state data", S + "nodes/collections.cpp"), ("set_state of the decision symbols", PY + "symbols.pyx")],
  ["the state of a decision after it was set, defaulted or drawn; the error raised when it is refused"])
claim("P10", "path analysis of the initialisers: guards of accepting paths compared with the class's own min/max/integral/size over a finite grid of symbolic terms, coverage of loops, abstract unrolling of the Python copy loops",
      STATIC + "Conditions along accepting paths (terms extracted from the source, never run) are compared with the domain the class declares by evaluating both over small values of their atoms; every loop must look at every element; uniqueness and completeness need a recognised test (set size, first insertion, occurrence counts). "
      "Constructors are treated the same way; the Python side must hand over every given value in order. Bounds are compared on small integers only: a guard that is wrong only for huge values is not seen. " + TRUST)

P("P11", "Moves keep a decision's state in its domain",
  "Every move a decision offers leaves a state in the declared domain: numbers stay in range, whole where declared, and equally many; a list or set still holds distinct values of its range, disjoint lists and sets still hold every element exactly once. "
  "This covers setting and flipping values, exchanging and rotating, growing and shrinking, moving elements between disjoint parts, and the random default move. "
  "A default move keeps the size within its declared bounds and never touches a place outside the state, also when the decision is empty or full.",
  ["histories"], "all decisions, all states in their domain, all sequences of moves with arguments in range",
  "Tests apply a few moves to short lists; a lost or doubled element, a bound that is off by one or an empty draw needs a particular length, position or fill level, and a later symbol then reads outside its arrays or the answer is silently infeasible.",
  [S + "nodes/numbers.cpp", S + "nodes/collections.cpp", S + "nodes/_state.hpp"],
  [("exchange / rotate / grow / shrink of the state data, default_move", S + "nodes/collections.cpp"), ("swap_between_sets / swap_in_list / pop_to_list", S + "nodes/collections.cpp"), ("set_value / flip / exchange / default_move", S + "nodes/numbers.cpp")],
  ["the state of a decision after a move"])
claim("P11", "symbolic multiset conservation: every extracted write, append and pop adds new minus old content, loops telescoped; value, size and index terms against the declared bounds",
      STATIC + "For each move of each decision class, the sum over all content changes on each path must be empty as a multiset of places of the old content (carried and shifting loops are summed in closed form, so any length is covered); disjoint sets are summed per element. Values written to numbers, sizes after a default move, drawn ranges and touched places are terms compared with the declared bounds over small values of their atoms. "
      "Raw replacement of one disjoint list (set_state, documented as unchecked) is not decided; that a default move of disjoint lists finds a list with elements rests on its first draw. " + TRUST)

P("P30", "Random moves and initial states reach the whole domain",
  "Repeated random initial states and default moves of a decision can reach every state of its declared domain, and none is favoured without being documented.",
  ["histories"], "all decisions, all random streams",
  "Tests draw a few states; whether every state can be reached is a statement about unboundedly many draws.",
  [S + "nodes/numbers.cpp", S + "nodes/collections.cpp"],
  [("default_move", S + "nodes/collections.cpp"), ("generate_value", S + "nodes/numbers.cpp")])
na("P30", "A reachability and probability statement about the chain of random draws of each decision at each size; no static argument over the source in reach bounds it. What can be decided about single draws (range, validity) is part of P10 and P11.")

P("P31", "Many small updates do not drift away from recomputation",
  "After any number of accepted changes, a sum or product that is updated step by step agrees with its recomputation to a relative error that does not grow with the number of changes.",
  ["histories"], "all histories of changes with fractional values",
  "Tests make few changes; rounding errors add up over millions of them.",
  [S + "nodes/mathematical.cpp", S + "nodes/quadratic_model.cpp"],
  [("ReduceNode::propagate", S + "nodes/mathematical.cpp"), ("QuadraticModelNode::propagate", S + "nodes/quadratic_model.cpp")])
na("P31", "The accumulated rounding error depends on the magnitudes and the order of run-time values (the library adds differences without compensation by design); a static error analysis would need bounds on histories. Exact agreement over small exactly representable values is P04.")

P("P32", "No access outside an array for any shape, index or slice",
  "Evaluating, changing or viewing a symbol never touches memory outside of its own and its operands' arrays, whatever their shapes, strides, sizes and indices are.",
  ["inputs", "histories"], "all models, all shapes and slices, all states",
  "Tests use small well-formed shapes, and an access just outside an array usually goes unnoticed.",
  [S + "array.cpp", S + "nodes/indexing.cpp", I + "iterators.hpp", I + "array.hpp"],
  [("strided iterators", I + "iterators.hpp"), ("indexing propagation", S + "nodes/indexing.cpp")])
na("P32", "Offsets are run-time products of shapes, strides and index values carried through iterators with internal state; the relational invariants (each offset is below the size of the buffer it was made for) are beyond the summaries used here. The parts that are decidable are decided elsewhere: places touched by moves (P11), ids from files (P18), accesses during updates of small operands (P04).")

P("P12", "The value range a symbol reports contains every value it can take",
  "Every array symbol reports a smallest and a largest value and whether its elements are whole numbers: each element it can ever hold, for any values of its operands within the ranges these report, any sizes they can have and any initial value of a reduction, lies within the reported range, and is a whole number if the symbol says so. "
  "This covers decisions and constants, element-wise operations of one, two or many operands, selections, indexing, concatenation, reductions with and without an initial value over arrays that may be empty, sizes and quadratic models; results that are not numbers or infinite are excluded.",
  ["inputs", "programs"], "all array symbols, all operand ranges and sizes, all initial values",
  "The range decides which indices, reductions and operands a model accepts and what a solver may skip; a range that is one value too narrow lets a model be built whose indexing reads outside an array, and a test sees that only if it happens to reach the one missing value.",
  [S + "nodes/mathematical.cpp", S + "nodes/constants.cpp", S + "nodes/flow.cpp", S + "nodes/manipulation.cpp", S + "nodes/numbers.cpp", I + "nodes/collections.hpp", I + "nodes/indexing.hpp", I + "array.hpp"],
  [("min, max and integral of the element-wise and reduction nodes", S + "nodes/mathematical.cpp"), ("ConstantNode::BufferStats", S + "nodes/constants.cpp"), ("WhereNode", S + "nodes/flow.cpp"), ("SizeNode, ConcatenateNode", S + "nodes/manipulation.cpp"),
   ("NumberNode", S + "nodes/numbers.cpp"), ("CollectionNode, DisjointListNode", I + "nodes/collections.hpp"), ("BasicIndexingNode, AdvancedIndexingNode", I + "nodes/indexing.hpp")],
  ["min(), max() and integral() of a symbol compared with the elements of its state"])
claim("P12", "interval transfer functions extracted from min(), max() and integral(), compared with the meaning of the operation over enumerated operand ranges",
      STATIC + "The terms the three functions return are evaluated as transfer functions on enumerated small operand ranges (whole and fractional, of both signs), sizes and initial values, and compared with the results the operation has on values of these ranges, including all end points. Ranges are small numbers: overflow and the largest representable values are outside. " + TRUST)

P("P13", "The size a symbol reports bounds its number of elements in every state",
  "Every array symbol reports either its fixed number of elements or how this number depends on another array and the least and the most it can be: in any state it has no fewer and no more elements than that, however many slices and indices lie between it and the decision whose size varies. "
  "Two symbols that are accepted as having the same varying shape have the same number of elements in every state. "
  "A slice takes the same positions of an axis as it would of a Python sequence of that length.",
  ["inputs", "programs"], "all dynamic symbols, all slices, all sizes of the decisions they depend on, all depths",
  "Whether two dynamic arrays may be combined, whether a reduction needs an initial value and how large an index can become are decided from these formulas when the model is built; a formula that is off by one for some size of a set is only noticed in a state of exactly that size.",
  [S + "array.cpp", S + "nodes/indexing.cpp", S + "nodes/collections.cpp", S + "nodes/mathematical.cpp", I + "array.hpp", I + "utils.hpp"],
  [("SizeInfo::substitute, SizeInfo::operator==, array_shape_equal", S + "array.cpp"), ("BasicIndexingNode::sizeinfo, AdvancedIndexingNode::sizeinfo", S + "nodes/indexing.cpp"),
   ("CollectionNode::sizeinfo, DisjointListNode::sizeinfo", S + "nodes/collections.cpp"), ("Slice::fit, Slice::size", I + "array.hpp"), ("fraction", I + "utils.hpp")],
  ["sizeinfo() of a symbol compared with size(state)"])
claim("P13", "formulas extracted from sizeinfo(), its substitution and comparison, compared with the sizes that slices and indices have for enumerated sizes of the decision",
      STATIC + "The terms that sizeinfo(), substitute, the comparison of sizes, Slice::fit and fraction return are evaluated on chains of up to three slices and indices over arrays of every small range of sizes; the reference is the definition of a slice.")

P("P25", "Errors of the library reach Python; no call ends the process",
  "Whatever a Python caller passes, an error that the C++ library detects arrives as a Python exception: it never ends the interpreter and is never lost on the way. "
  "Each library function that the Cython layer calls without turning exceptions into Python errors therefore cannot throw, and neither can destructors and other functions that are declared not to. "
  "No function of the Cython layer that is not allowed to raise does so, and the library never ends the process itself.",
  ["inputs", "programs"], "all arguments of the Python interface, all models and states",
  "A declaration that lacks the handler compiles and behaves the same until the one argument for which the library throws; a test only sees it when it tries exactly this argument, and then the whole test process ends.",
  [PY + "libcpp/graph.pxd", PY + "libcpp/array.pxd", PY + "libcpp/nodes.pxd", PY + "symbols.pyx", S + "graph.cpp", S + "array.cpp"],
  [("declarations with `except +`", PY + "libcpp"), ("Slice::Slice", I + "array.hpp"), ("Graph", S + "graph.cpp"), ("cdef functions declared noexcept", PY + "states.pyx")],
  ["which exception, if any, a Python call raises, and that the interpreter goes on"])
claim("P25", "exception escape analysis over the call graph: throwing paths of every library function that Cython declares without a handler, of noexcept functions and of destructors, against the arguments the call sites pass on",
      STATIC + "The declarations are read from the Cython sources; the paths of each undeclared library function (and of the functions it calls) that end in a throw are extracted, and their conditions evaluated over small arguments that the conditions at the Python call sites let through. "
      "Throws that depend on an operand given by address, or on marks of the traversal itself, stay undecided. Exceptions from memory allocation are outside. " + TRUST)

P("P09", "Operands with which a symbol has no value in some state are refused",
  "A symbol is only created for operands with which it has a value in every state: a denominator whose values are all positive or all negative, a square root of values that are never negative, an order or indices of whole numbers that all lie within the axis they select from, and a largest or smallest element without a start value only of an array that is never empty. "
  "Operands whose reported range, integrality or size allows anything else are refused with an exception when the symbol is built: no state of an accepted model divides by zero, takes the root of a negative value or selects outside of the array.",
  ["inputs", "programs"], "all operands of division, square root, permutation, advanced indexing and of the reductions max and min, all ranges and sizes they report",
  "One boundary that is off by one accepts a model which fails only in the rare state where the operand takes that value; a test samples few ranges and fewer states.",
  [S + "nodes/mathematical.cpp", S + "nodes/indexing.cpp"],
  [("BinaryOpNode, UnaryOpNode, ReduceNode constructors", S + "nodes/mathematical.cpp"), ("AdvancedIndexingNode::IndexParser_, PermutationNode constructor", S + "nodes/indexing.cpp")],
  ["which operands a constructor accepts"])
claim("P09", "path conditions of the constructors evaluated for operands that must be refused",
      STATIC + "Every way through such a constructor that completes is extracted together with the conditions on what the operand reports (min, max, integral, size, shape); a way on which all of them hold for an operand that must be refused is reported. The operands are the boundary cases of each requirement, also for a second axis and for an axis of varying length. "
      "That the reported ranges and sizes contain what the operand really takes are P12 and P13; ways whose conditions are not understood stay undecided. " + TRUST)
