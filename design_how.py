how["C01"] = """Request holders (locals, members, structured bindings) carry a typestate over every CFG path: pending after a request flows in, done after a wait
on the whole holder or after a loop that waits for an element in every round, handed over by return (then the caller is checked). Each request keeps the root variable that owns its buffer; scope ends,
resizes, reads and writes of that root while pending are violations. A holder must not be assigned anew while pending; the slot a message is started in must change from message to message (affine subscripts, counters, strides); rounds of
wait-any must be as many as the messages started. Classes that own persistent requests are checked for pairing, and each group of requests for being started and awaited under the same condition and number."""
how["C02"] = """Every function from which a collective is reachable is analysed. Values are tainted when they may differ between ranks (rank numbers, local sizes and ownership, availability of a level);
reductions and broadcasts clean. For each branch on a tainted value the *languages* of collective events that can follow on its two sides are compared as automata; branches with equal languages pass.
Calls are followed through virtual dispatch, lambdas and constructors behind make_shared; nullness of pointers is a value of its own; branches taken on a one-rank communicator have no partner to miss. Exchanges with neighbours are
a second class of events: they may be left out where the rank has no neighbour, and nowhere else on local data. Confirmed exceptions name the event and the kind of difference; such an event is left out of both languages, so that everything else around it is still compared."""
how["C06"] = """Constructors: definite assignment of every scalar member, through delegating constructors, in-class initialisers and the class's own methods. Locals: definite assignment over the CFG. Local arrays, vectors and matrices created without values (3600): on no path may an entry be accumulated into, computed with or handed to the builder of a table or matrix graph before any write; writes that spare entry 0 (loops from 1, index k+1) do not count for reads of entry 0. Option aggregates: every scalar has an initialiser."""
how["C14"] = """For each record type the sets of members taken over by copy/move construction, assignment, comparison, accumulation, packing and the MPI datatype are computed from the type-checked bodies and compared with the record layout (offsets and sizes from the compiler)."""
how["C16"] = """Interprocedural summaries tell which calls leave memory allocated on a local heap. In loops over entities every allocating path must lie in the scope of a HeapReset opened in that round; views that carry heap memory are tracked to their uses and returns."""
how["C19"] = """Function-local and namespace-scope variables with static storage, mutable members and writes through const objects are enumerated for the whole program; only an allow-list of confirmed idempotent or diagnostic state passes. Unordered iteration, addresses, clocks and random numbers must not flow into results."""

how["C17"] = """`absint` executes HybridBaseSmoother::Smooth/SmoothBack abstractly with all option and status values left symbolic. The state holds, per request: inactive / active / complete, per buffer: whose values it
holds (filled, received, applied), who runs (thread started / awaited), and per vector whether exchanged rows are dirty or gathered. Calls into DCCMap and lambdas passed to the thread are entered; tags and buffers of the
persistent requests are read off their initialisation. Fields that both threads use are checked for holding the mutex at every access."""
how["C04"] = """`absint` executes every member of the Smooth family for the eight flag combinations. Vector values are formal linear combinations of words of operators (A, P, smoothers) applied to the initial vectors; `b - A x` is compared
as a normal form, so a path that claims or returns anything else is a violation, naming the function, the flags and the two expressions. Loops are widened; relations such as res = b - A x survive widening. Cycles are run with a
symbolic level: each transfer must read the vectors and the smoother of its level, and each coarse correction must be added with weight one. The fixed-point rule starts from b = A x and requires x to come back unchanged; it also runs
the vector-level kernels of HybridDISmoother."""

how["C08"] = """All parsing functions (SetFromFlags and friends, lambdas included) are enumerated; each flag access is resolved to (key, option field). Rules: frozen key -> field table, prefix use, polarity of boolean parsing evaluated
exhaustively over (flag true/false/absent) x (default), pairing of name lists and enumerator lists, base parsers called, order defaults - flags - adjustments, no later constant assignment. Option fields nobody reads are reported. For every call and
constructor (through make_shared, base and member initialisers) arguments whose name matches another parameter of compatible type are permutations. A table of the base revision records which functions depend on which option and which argument
carries it; an entry must still hold in the function, its helpers or its callers. A second table records what must be known about options (through tests, early exits, bool locals) at every call; a call that now runs under the opposite value, or under an option
the function never depended on, is a violation. Per-level lookups must use the level at hand; SpecOpt::GetOpt is evaluated over all orderings of level and size. Python bindings: py::arg lists against lambda parameters, unused parameters."""

how["C22"] = """`absint` runs every mode of every operator class from unknown vectors x, y and a symbolic scale. Results are sums of (polynomial coefficient) x (word of operators) x (initial vector). Compared: plain against adding mode (y + s W x),
transposed against plain (reversed word of transposes), nothing of old output or work vectors, input untouched. Arrays of sub-steps are run through with 1..4 elements, so the order and the exactly-once application are decided. Loops over entries and
messages are judged by the degree of every update in scale, input and old output (through locals, buffers, lambdas, sends and receives), by which entries are overwritten before something is added to them, and by where the indices of the connected entries come from."""

how["C23"] = """`absint` runs every sweep with its sizes replaced by small numbers (4 valuations: several levels, blocks, colors, splits, local steps, single rows) and leaves flags, free rows and options open. Recorded in order: updates of entries or blocks of x, sweeps of
inner smoothers with direction (name, template argument or boolean argument) and range, transfers between levels. R1: SmoothBack, SmoothBackK, SmoothBackRES and the BACKWARD instances give the mirrored sequence of their forward counterpart under the same
assumptions. R2: Symm variants and cycles are their own mirror image. R3: rows/blocks updated = free ones, all equally often. R4: the ranges handed to an inner smoother during one sweep cover all of it. Three genuine defects were found this way (see known_findings.json)."""

how["C21"] = """`absint` with the status as value: a vector carries its label (DISTRIBUTED / CUMULATED / unknown on entry) and, per representation of its local data, the status this data really has; assignments, `SetParallelStatus`, `Cumulate`, `Distribute`, `Add` follow NGSolve's semantics,
tests of the label split paths. R1: local operators and element-wise transfers get the status they need. R2: nothing is read, converted, handed on or returned under a label its data does not have (relabelling is for zero or overwritten vectors). R3: results have the status of the operation: restriction and local matrices distributed,
prolongation cumulated. R4: hybrid sweeps collect the right hand side, and the halo of the iterate is refreshed by an exchange that is no no-op. One genuine defect was found (see known_findings.json)."""

how["C25"] = """The constructors/SetUp of GSS3, GSS4, BSmoother, DynBlockSmoother and the block setup of BSmoother2 are executed abstractly on a fixed pattern of couplings whose entries A(i,j) are letters that neither commute nor are symmetric (A(j,i)=A(i,j)^T);
the inverse of a (block) diagonal becomes letters M(i,j) of that very matrix, component-wise copies to scalar matrices included. Then every variant of a step is executed; entries of x, res and work vectors are linear forms (words of letters) over b and the old x.
The result is compared with one sweep of the definition; equality modulo M D = 1 is decided by evaluating both forms with random 2x2 matrices over GF(2^61-1) that satisfy this relation (one-sided error below 2^-50; no execution of repository code).
Values that depend on something the interpreter does not know are noted, never reported, except memory of the smoother that was not written. Genuine defects found this way and repaired: GSS4 with subset and own diagonals (6f4cbc7), six in BSmoother2 (see known_findings.json)."""
