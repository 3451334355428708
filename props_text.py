# ---------------------------------------------------------------- claimed
prop("C01", "Non-blocking messages are completed and their buffers left alone until then",
     "Every non-blocking or persistent message that is started is waited for on every path before the function, or the class that owns the request, moves on; "
     "until then the memory it sends from or receives into stays alive, a receive buffer is not read or written, and a send buffer is neither overwritten, resized nor freed.",
     ["schedules", "inputs"],
     "all interleavings of message progress, all message sizes (eager and rendezvous), all partitions",
     "MPI copies small messages eagerly and one host delivers in order, so a missing or late wait is invisible for small test meshes; only larger messages or a loaded network expose it.",
     ["src/base/distributed/mpiwrap_extension.hpp", "src/base/distributed/reducetable.hpp", "src/base/distributed/eqchierarchy.cpp", "src/base/linalg/dcc_map.cpp",
      "src/base/coarsening/dof_contract.cpp", "src/base/coarsening/grid_contract.cpp", "src/base/linalg/hybrid_matrix.cpp", "src/base/factory/vertex_factory_impl.hpp",
      "src/base/coarsening/agglomerate_map.cpp", "src/base/mesh/base_mesh.hpp"],
     [("request arrays and MyMPI_WaitAll", "src/base/distributed/reducetable.hpp ReduceTable, src/base/distributed/eqchierarchy.cpp EQCHierarchy::SetupFromDPs"),
      ("persistent requests of the halo exchange", "src/base/linalg/dcc_map.cpp DCCMap")],
     technique="path-sensitive typestate of request holders + ownership roots of message buffers; class-level pairing for persistent requests",
     note="Covers every instantiated function that starts non-blocking messages. Trusted: the list of wait primitives; element-level disjointness of table rows is taken from "
          "syntactically different row subscripts; uninstantiated templates are not analysed.")

prop("C02", "Collective operations are entered by all ranks alike",
     "Every collective operation on a communicator (reductions, broadcasts, barriers, gathers, communicator and parallel-dof-table "
     "construction) is executed by every rank of that communicator, the same number of times and in the same order. No rank leaves "
     "early, skips or repeats a collective because of its rank number, its local mesh, matrix or dof counts, or other data that may differ between ranks. "
     "The same holds, among ranks that share something, for exchanges with neighbours (nodal and dof data, equivalence-class data, vector cumulation).",
     ["schedules", "inputs", "configurations"],
     "all meshes, partitionings, rank counts (including ranks with an empty local part) and option settings",
     "A mismatch only deadlocks for particular partitions or option values; the suite runs three small meshes on 1, 2 and 5 ranks and never the Stokes part.",
     ["src/base/factory/base_factory.cpp", "src/base/distributed/mpiwrap_extension.hpp", "src/base/distributed/eqchierarchy.cpp",
      "src/base/mesh/base_mesh_impl.hpp", "src/base/precond/amg_pc.cpp", "src/base/precond/amg_pc_vertex_impl.hpp",
      "src/base/solve/amg_matrix.cpp", "src/base/coarsening/grid_contract.cpp", "src/stokes/common/stokes_pc.cpp"],
     [("level loop decides on globally reduced quantities", "src/base/factory/base_factory.cpp BaseAMGFactory::RSU"),
      ("empty local parts still take part in the counts", "src/base/mesh/base_mesh_impl.hpp BlockTM::SetVs / SetNodes"),
      ("log summary", "src/base/factory/base_factory.cpp BaseAMGFactory::Logger")],
     technique="interprocedural rank-taint dataflow + equality of collective-event languages on both sides of rank-dependent branches",
     note="Decides every branch of every function from which a collective or an exchange with neighbours is reachable. Trusted: the table of rank-local sources, "
          "virtual dispatch resolved to all overriders, nullness of a pointer follows what it was set from (a summary per function); "
          "paths that end in an exception are ignored.")

prop("C06", "No behaviour depends on an indeterminate value",
     "Every scalar, flag or pointer held by a solver, smoother, map or options object has a defined value from construction on (or is set by the one routine that fills the object), "
     "and no function reads a local variable on a path on which it has not been assigned, or computes with entries of a local array, vector or matrix that nothing has been written to. Two runs with the same input therefore take the same decisions.",
     ["inputs", "configurations", "histories"],
     "all option combinations, all construction orders and all branches, including those for options the caller did not set",
     "An uninitialised flag usually reads as the value that happens to be in memory, so sampled runs pass; nothing runs the Stokes part, the Krylov driver or most option combinations.",
     ["src/base/solve/LinearSolver.hpp", "src/base/precond/amg_pc.hpp", "src/base/factory/base_factory.hpp", "src/base/coarsening/agglomerator.hpp",
      "src/base/smoothers/base_smoother.hpp", "src/base/precond/amg_pc_vertex.hpp"],
     [("in-class initialisers of option aggregates", "src/base/precond/amg_pc.hpp BaseAMGPC::Options, src/base/factory/base_factory.hpp"),
      ("constructor initialiser lists", "src/base/smoothers, src/base/linalg, src/base/distributed")],
     technique="definite-assignment dataflow over constructors (with own-method summaries) and function bodies",
     note="Covers all data members of scalar type of all classes with user constructors and all option aggregates, and all scalar locals declared "
          "without initialiser, and all local arrays, vectors and matrices created without values (entries told apart only as first and others). Trusted: a table of 12 members that their creator assigns before use (each confirmed by reading). "
          "Arrays that are members, and raw heap buffers, are outside.")

prop("C16", "Scratch memory is given back every round and not used afterwards",
     "Loops over mesh entities, dofs, agglomerates or blocks that take scratch memory from a local heap give it back (HeapReset) before the next round, so scratch use does not grow with the problem size; "
     "and no array, vector or matrix view that points to such memory is used or returned after the HeapReset that covers it has ended.",
     ["inputs"],
     "all mesh sizes, block sizes and numbers of agglomerates",
     "The heaps are sized generously for test meshes: a missing reset only overflows on large problems, and a view that outlives its reset reads stale but plausible data until the heap is reused.",
     ["src/base/factory/vertex_factory_impl.hpp", "src/base/coarsening/agglomerator_impl.hpp", "src/base/utils/utils_sparseLA.hpp", "src/base/smoothers/dyn_block.cpp",
      "src/stokes/common/stokes_factory_impl.hpp", "src/base/smoothers/block_gssmoother.cpp", "src/elasticity"],
     [("one HeapReset per entity", "src/base/factory/vertex_factory_impl.hpp VertexAMGFactory"),
      ("scratch of the smoothers", "src/base/smoothers/block_gssmoother.cpp")],
     technique="interprocedural allocation-effect summaries for local heaps + scope (region) analysis of HeapReset guards",
     note="Covers every instantiated function that handles a LocalHeap. Six functions with bounded rounds per call are listed exceptions. "
          "Whether a given fixed heap is large enough for one round is not decided.")

prop("C19", "No hidden state: calls and solver objects do not influence each other",
     "What a function or object does depends only on its arguments and members: function statics and global variables are not changed after an initialisation that is independent of the call "
     "(or are scratch that every call overwrites before reading it), and no decision is taken from clocks, random numbers, thread ids, memory addresses or hash-table order. "
     "Setting up a second solver, or the same one again, therefore gives the same hierarchy.",
     ["histories", "inputs"],
     "all sequences of solver constructions and applications in one process",
     "Each test process builds the same few solvers in the same order; a value kept from the first mesh, level or option set looks right there.",
     ["src/base/factory/vertex_factory_impl.hpp", "src/base/utils/utils_denseLA.hpp", "src/elasticity/elasticity_energy.hpp", "src/stokes/common/stokes_energy.hpp",
      "src/base/mesh/alg_mesh_nodes.hpp", "src/base/coarsening/dof_map.hpp", "src/base/smoothers/hybrid_base_smoother.cpp", "src/base/utils/amg_register.cpp"],
     [("static scratch matrices", "src/base/utils/utils_denseLA.hpp RegTM"), ("cached MPI datatypes", "src/base/mesh/alg_mesh_nodes.hpp MPI_typetrait")],
     technique="enumeration of static storage + mutation/effect analysis + definite-overwrite dataflow; sink analysis for sources of nondeterminism",
     note="Covers every variable of static storage duration in the instantiated program. One process-wide registry is a listed exception. The order in which arriving messages are summed up "
          "(round-off) is not part of the statement.")

prop("C14", "Records keep all their members when copied, compared, added or sent",
     "When a mesh, node-data record, agglomerate, blocking or option object is copied, moved, assigned, set, accumulated (+=) or compared (==), every data member takes part, each from the same "
     "member of the other object; and the MPI datatype of a record describes every member exactly once, at its offset and with its type.",
     ["inputs", "configurations"],
     "all member values, all record types, 2d and 3d",
     "A forgotten member only shows where its value differs from the default and matters later (e.g. on contracted levels or after redistribution); several of the record types belong to the Stokes part, which no test runs.",
     ["src/base/mesh/alg_mesh_nodes.hpp", "src/base/mesh/base_mesh.cpp", "src/elasticity/elasticity_mesh.hpp", "src/stokes/common/stokes_mesh.hpp", "src/stokes/hdiv/hdiv_stokes_mesh.hpp",
      "src/stokes/ncfes/nc_stokes_mesh.hpp", "src/base/linalg/dyn_block.cpp", "src/base/coarsening/agglomerator.hpp", "src/base/utils/SpecOpt.hpp"],
     [("node data records and their MPI types", "src/elasticity/elasticity_mesh.hpp ElastVData, src/stokes"), ("mesh move constructors", "src/base/mesh/base_mesh.cpp")],
     technique="member-coverage analysis of copy/compare/accumulate functions; evaluation of MPI datatype descriptions against the compiler's record layout",
     note="Covers user-written functions only (defaulted ones are complete by construction), including template bodies that are never instantiated. Three members are listed exceptions. "
          "Members rebuilt from other members are taken to be rebuilt correctly.")

prop("C17", "The overlapped halo exchange of the smoothers follows its protocol",
     "In a smoothing step of a hybrid smoother, for every combination of overlapped communication, communication in the background thread, number of local steps, and parallel state of the right-hand side: "
     "a message is only started after its buffer was filled for it and never while another message is using that buffer; what was received is applied exactly once, to the vector whose values were sent, "
     "after it has arrived and before rows that depend on it are processed; the step returns with nothing in flight, the updated values exchanged and the solution cumulated; and state shared with the thread is only used while holding its mutex.",
     ["schedules", "configurations"],
     "all message and thread schedules, all smoother options, forward and backward",
     "With eager small messages and fast local hosts a missing wait or a reused buffer is almost never observed; most option combinations are not run by the suite at all.",
     ["src/base/linalg/dcc_map.cpp", "src/base/linalg/dcc_map.hpp", "src/base/smoothers/hybrid_base_smoother.cpp"],
     [("DCCMap Start/Apply/Finish", "src/base/linalg/dcc_map.cpp"), ("CallStageKernelsImpl, BackgroundMPIThread", "src/base/smoothers/hybrid_base_smoother.cpp")],
     technique="typestate analysis by path-sensitive abstract interpretation (requests, buffers, thread hand-off) + lock-set analysis",
     note="Interprocedural through DCCMap, the lambdas handed to the thread and the stage driver, over all abstract paths including unbounded numbers of local steps. "
          "Assumes both sides of an exchange run the same configuration, that neighbouring ranks have at least one common row, and that the MPI library keeps its contract.")

prop("C04", "Smoothing flags are truthful and promised residuals are delivered",
     "Whenever one component smooths through another (cycles, embedded preconditioner, k-step, symmetric, proxy, Hiptmair and hybrid smoothers), what it states about the vectors is true: the iterate is zero where it is said to be, "
     "the residual equals b - A x where it is said to be up to date. A step that is asked to update the residual returns exactly b - A x for the new iterate and leaves b alone; smoothing an exact solution leaves it unchanged; "
     "and the cycles restrict up-to-date residuals and add the coarse correction, once, to the iterate of the same level.",
     ["inputs", "histories"],
     "all vectors, matrices, level counts and combinations of the three flags",
     "A stale residual or a wrong flag still gives a convergent, slightly worse iteration; the suite only bounds iteration counts, and most smoothers are never called with most flag combinations.",
     ["src/base/smoothers/base_smoother.hpp", "src/base/smoothers/base_smoother.cpp", "src/base/smoothers/hybrid_base_smoother.cpp", "src/base/smoothers/hybrid_smoother.cpp", "src/base/smoothers/gssmoother.cpp",
      "src/base/smoothers/dyn_block_smoother.cpp", "src/base/solve/amg_matrix.cpp"],
     [("Smooth / SmoothBack / SmoothK contract", "src/base/smoothers/base_smoother.hpp"), ("SmoothV / SmoothW / SmoothBS", "src/base/solve/amg_matrix.cpp")],
     technique="abstract interpretation over a free module of vectors and operator words (symbolic-constant dataflow with flags), all flag combinations",
     note="Vectors are formal sums of operator words applied to initial vectors, so the equalities hold for all data. Row-wise kernels (one Gauss-Seidel sweep over rows) are taken as primitive steps x += S res with the "
          "corresponding residual update; that a kernel's row loop implements such a step is not decided here. Step counts are assumed to be at least one, cycles to have at least two levels.")

prop("C08", "User options reach the component they are meant for",
     "Every option that can be set through flags is read under its own (prefixed) key and sets its own field; setting a boolean option to true or false makes it so and leaving it out keeps the default; names of enumerated options select the value of that name; "
     "defaults are applied before what the user set and nothing replaces it by a constant afterwards; per-level options are looked up for the level being set up; and every component that depends on an option gets the value of that option, "
     "not of another one and not a constant: arguments are not permuted on the way from the flags or the Python keyword arguments through factories and constructors to the component.",
     ["configurations", "inputs"],
     "all options, levels, smoother types and Python keyword arguments",
     "There are more than a hundred options; the suite sets a handful, and most wrong settings only make the iteration a little slower or change how messages are scheduled.",
     ["src/base/precond/amg_pc.cpp", "src/base/factory/base_factory.cpp", "src/base/factory/vertex_factory_impl.hpp", "src/base/utils/SpecOpt.hpp", "src/base/smoothers", "src/base/python"],
     [("Options::SetFromFlags", "src/base/precond/amg_pc.cpp"), ("SpecOpt", "src/base/utils/SpecOpt.hpp"), ("Build*Smoother", "src/base/precond/amg_pc.cpp")],
     technique="AST queries over the resolved program: key/field/enumerator correspondence, argument-parameter role analysis, option dependence through the call graph, exhaustive evaluation of flag parsing",
     note="Role analysis compares the names of arguments with the parameter names of the resolved callee, so a permutation is seen where both have telling names of compatible types. The dependence of functions on options and of arguments on options "
          "is compared with the table of the base revision, modulo helpers and callers. 14 options that are read but used nowhere are known findings.")

prop("C22", "The application modes of every operator describe one linear map",
     "For every matrix-like class (Mult, MultAdd, MultTrans, MultTransAdd) and every level transfer (TransferF2C, AddF2C, TransferC2F, AddC2F): the plain mode gives y = W x with nothing of the old y "
     "and nothing of the contents of work vectors in it; the adding mode gives y + s W x with the same W and the whole scale s; the transposed mode applies the transpose (the same map for operators that are symmetric by "
     "contract), and restriction is the transpose of prolongation; the input vector is not modified; a composed level transfer applies every part exactly once and in order.",
     ["inputs", "configurations", "histories"],
     "all vectors, scales, numbers of parts and ranks, all branches of every mode, and every earlier use of the operator",
     "Tests apply operators in one mode (mostly inside a solver that forgives errors), with scale one, in serial and with one or two steps per level; the other modes never run.",
     ["src/base/coarsening/dof_map.cpp", "src/base/coarsening/dof_map.hpp", "src/base/coarsening/dof_contract.cpp", "src/base/linalg/hybrid_matrix.cpp", "src/base/linalg/dyn_block.cpp",
      "src/base/solve/amg_matrix.cpp", "src/base/solve/LinearSolver.cpp", "src/base/smoothers/base_smoother.cpp", "src/base/smoothers/gssmoother.cpp", "src/base/smoothers/block_gssmoother.cpp",
      "src/base/smoothers/loc_block_gssmoother_impl.hpp"],
     [("work vectors of composed transfers", "src/base/coarsening/dof_map.cpp ConcDMS"), ("messages between the ranks of a group", "src/base/coarsening/dof_contract.cpp CtrMap"),
      ("sums of local and neighbour matrix", "src/base/linalg/hybrid_matrix.cpp HybridBaseMatrix"), ("element-wise kernels", "src/base/smoothers, src/base/linalg/dyn_block.cpp")],
     technique="abstract execution over a free module of operator words (every mode of every class compared as formal linear map) and a degree analysis of element-wise and message kernels",
     note="36 operator classes, 8 kinds of level transfer; composed transfers are run with 1 to 4 parts. Kernels: every update must be of degree one in scale and input with coefficient one, all branches with the same data, "
          "and the transposed kernel must connect the same entries the other way round; the numerical content of index tables and block inverses, and the library's own sparse kernels, are outside.")

prop("C23", "Backward sweeps mirror forward sweeps, and every sweep is complete",
     "For every smoother and for every choice of its options (symmetric or not, number of steps, number of local steps, overlapping communication, colors, free degrees of freedom, subset of rows, blocks): SmoothBack performs "
     "exactly the updates of Smooth in reverse order, inner smoothers reversed, whether the residual is carried along or recomputed; SmoothBackK mirrors SmoothK; symmetric sweeps and the multigrid cycles (V, W, BS, from a level, embedded) "
     "are their own mirror image, so that the preconditioner stays symmetric; one sweep updates every free row or block exactly once and leaves the others alone; the parts of a hybrid sweep make up all local rows.",
     ["inputs", "configurations"],
     "all matrices, sizes, splits of the rows, sets of free rows, numbers of steps and levels, all options",
     "A preconditioner that is slightly unsymmetric or leaves out a row still reduces the error: CG converges in the tests either way; options such as local steps, symm_loc, DynBlock smoothers or W cycles are never combined in tests.",
     ["src/base/smoothers/base_smoother.hpp", "src/base/smoothers/base_smoother.cpp", "src/base/smoothers/gssmoother.cpp", "src/base/smoothers/block_gssmoother.cpp",
      "src/base/smoothers/loc_block_gssmoother.cpp", "src/base/smoothers/loc_block_gssmoother_impl.hpp", "src/base/smoothers/dyn_block_smoother.cpp", "src/base/smoothers/hybrid_base_smoother.cpp",
      "src/base/solve/amg_matrix.cpp", "src/base/precond/amg_pc.cpp"],
     [("order of updates", "src/base/smoothers *::Smooth*/SmoothBack*"), ("stages of hybrid smoothers", "src/base/smoothers/hybrid_base_smoother.cpp CallStageKernelsImpl"),
      ("pre- and post-smoothing of the cycles", "src/base/solve/amg_matrix.cpp AMGMatrix::Smooth*")],
     technique="abstract execution recording the sequence of updates, inner sweeps and transfers of every sweep, with sizes run through; backward sequences compared with the mirrored forward ones, coverage of rows by counting",
     note="24 forward/backward pairs of 17 smoother classes plus the direction templates and 10 symmetric sweeps and cycles, four sets of small sizes and all combinations of the flags, free rows and options left open (every combination is a path). "
          "Blocks of one color, which do not touch each other, count as simultaneous. Inner smoothers are judged by themselves and taken as a whole where they are used. That two updates are numerically adjoint (diagonal inverses symmetric) is outside.")

prop("C21", "Parallel vectors are used in the parallel status they are really in",
     "A vector distributed over ranks is DISTRIBUTED (the local values add up) or CUMULATED (each rank holds full values). Matrices, grid transfers, smoothers and cycles use every vector in the status the operation needs, whatever status it came in: "
     "local matrices, restrictions and prolongations are applied to, and label their results with, the right status; nothing is read, exchanged, handed on or returned under a status its local data does not have; "
     "the hybrid sweeps collect right hand sides and bring the halo of the iterate up to date before it is read.",
     ["inputs", "configurations"],
     "all vectors in every status on entry, all numbers of ranks and partitions, all options of the smoothers",
     "A vector that is mislabelled gives wrong numbers at the interface only, and only for the status the tests do not start from: the drivers always hand in the same status, on few ranks, and the iteration still converges.",
     ["src/base/linalg/hybrid_matrix.cpp", "src/base/linalg/sparse_utils.cpp", "src/base/map/base_coarse.cpp", "src/base/map/dof_map.cpp", "src/base/map/dof_contract.cpp", "src/base/smoothers/base_smoother.hpp",
      "src/base/smoothers/hybrid_base_smoother.cpp", "src/base/smoothers/base_smoother.cpp", "src/base/solve/amg_matrix.cpp", "src/base/smoothers/dyn_block_smoother.cpp"],
     [("local matrix between cumulated and distributed vectors", "src/base/linalg/hybrid_matrix.cpp HybridMatrix::MultAdd"), ("status handling of hybrid sweeps", "src/base/smoothers/hybrid_base_smoother.cpp SmoothImplRES/SmoothImplRHS"),
      ("status of transfers", "src/base/map/dof_map.cpp TransferF2C/TransferC2F")],
     technique="typestate analysis by abstract execution: for each vector the labelled status and the true status of its local data, unknown on entry, through all members that apply, transfer, smooth or cycle",
     note="All combinations of statuses on entry are paths. Vectors without a parallel status (one rank) are NOT_PARALLEL throughout and need nothing. The exchange itself (DCCMap) is taken by its contract here (C14, C22 look inside). ")

prop("C25", "All variants of a local smoothing step perform the same update",
     "A local smoother (point Gauss-Seidel, block Gauss-Seidel in both implementations, smoother for row-block matrices) defines one step: row by row or block by block, x changes in the rows of the block by the inverse of the diagonal "
     "block times the current residual b - A x, and nowhere else. Every way to ask for this step gives the same new x and, if asked for, the residual b - A x of it: working with the right hand side or carrying the residual along, residual up to date or not, "
     "zero start exploited or not, several steps at once, blocks kept in order, by color or as shared loops, parts of A x saved for the way back, rows compressed to a subset. The inverse is that of the block of the matrix over the free rows of the block, "
     "with the replaced diagonals if there are any; used as an operator the smoother adds the inverse times the vector.",
     ["inputs", "configurations"],
     "all matrices (entries and couplings), right hand sides, iterates, block entries not commuting and not symmetric, all flags and options of a step",
     "A wrong variant is still some smoother: CG needs a few more steps or none, and only one or two of the variants are reached by the tests, on problems with scalar or symmetric blocks.",
     ["src/base/smoothers/gssmoother.cpp", "src/base/smoothers/gssmoother.hpp", "src/base/smoothers/block_gssmoother.cpp", "src/base/smoothers/loc_block_gssmoother.cpp", "src/base/smoothers/loc_block_gssmoother_impl.hpp",
      "src/base/smoothers/dyn_block_smoother.cpp"],
     [("point Gauss-Seidel", "src/base/smoothers/gssmoother.cpp GSS3/GSS4::Smooth*Internal, CalcDiags, SetUp"), ("block Gauss-Seidel", "src/base/smoothers/block_gssmoother.cpp BSmoother::Smooth_impl/SmoothRES_impl/MultAdd"),
      ("blocks with lower and upper parts", "src/base/smoothers/loc_block_gssmoother_impl.hpp BSBlock::RichardsonUpdate*, SmoothNO, SmoothWO"), ("row-block matrices", "src/base/smoothers/dyn_block_smoother.cpp updateBlockRHS/updateBlockRes, SetUp")],
     technique="abstract execution of setup and sweeps on a generic matrix: entries of vectors are linear forms over b and x with words over non-commuting blocks as coefficients; comparison with the one-step definition modulo M D = 1 by identity testing",
     note="6 smoother classes (block entries 3x3, 2x2 and scalar), all combinations of flags, replaced diagonals, subsets and kinds of loops, on one coupling pattern with five rows (blocks of one and two rows, a row in no block, overlapping blocks, blocks with uncoupled rows); "
          "values of the entries are symbolic. Rows that are in no block of BSmoother2 are outside its matrix: their residual is not compared. Pseudo inverses count as inverses; rounding is outside. The order of the sweeps is C23, the distributed parts are C22.")

# ---------------------------------------------------------------- not claimed
NUM = "The statement quantifies over floating-point results of run-time data (matrix entries, meshes); no static argument in reach bounds them, and a run-time comparison would be a different technique. "
prop("C30", "The preconditioner is a symmetric positive definite operator",
     "For a symmetric positive definite system and a symmetric smoother configuration, the assembled preconditioner is a symmetric positive definite operator on the free dofs.",
     ["inputs", "configurations"], "all SPD matrices and all symmetric option settings", "The suite only checks that CG converges on a few meshes.",
     ["src/base/solve/amg_matrix.cpp", "src/base/smoothers"], [("V-cycle with forward / backward smoothing", "AMGMatrix::SmoothV")],
     na=NUM + "Its structural clause (each pre-smoothing step is mirrored) is claimed separately where it can be decided.")
prop("C31", "Coarse matrices are the Galerkin products of the prolongation",
     "On every level the coarse matrix equals the triple product of the restriction, the fine matrix and the prolongation, independent of the distribution of the matrix.",
     ["inputs", "configurations"], "all matrices, prolongations, partitions", "Suites sample three meshes and do not compare coarse matrices.",
     ["src/base/coarsening/dof_map.cpp", "src/base/linalg"], [("ProlMap::AssembleMatrix", "src/base/coarsening/dof_map.cpp")],
     na=NUM)
prop("C32", "Prolongations preserve the kernel vectors of the problem",
     "The range of every prolongation contains the near-kernel of the problem (constants, rigid body modes) on the dofs not touched by constraints.",
     ["inputs", "configurations"], "all meshes, weights, coarsenings", "The suite has no such check; check_kvecs prints only.",
     ["src/base/factory", "src/elasticity"], [("smoothed prolongation", "src/base/factory/vertex_factory_impl.hpp")], na=NUM)
prop("C33", "The result does not depend on the number of ranks beyond round-off",
     "Applying the same operator, restriction or smoother on the same global data yields the same global vector for every number of ranks and every partition, up to round-off where the algorithm is rank independent.",
     ["inputs", "configurations", "schedules"], "all partitions", "Three rank counts, iteration counts only.",
     ["src/base/linalg/hybrid_matrix.cpp"], [("hybrid matrix M + G split", "src/base/linalg/hybrid_matrix.cpp")], na=NUM)
prop("C34", "Iteration counts stay bounded under mesh refinement",
     "The number of Krylov iterations stays bounded as the mesh is refined and coefficients vary.",
     ["inputs"], "all meshes and coefficients", "A few meshes with generous iteration limits.",
     ["src/base"], [("whole hierarchy", "src/base")], na=NUM)
prop("C35", "Agglomerates partition the vertices",
     "Every vertex that is not dropped belongs to exactly one agglomerate, agglomerates are connected, and all ranks sharing a vertex agree on it.",
     ["inputs", "schedules"], "all graphs, weights and partitions", "Only sampled meshes.",
     ["src/base/coarsening/spw_agg_impl.hpp", "src/base/coarsening/mis_agg_impl.hpp"], [("pairwise aggregation rounds", "src/base/coarsening/spw_agg_impl.hpp")],
     na="The invariant lives in the values of index arrays computed by data-dependent graph algorithms; a static argument would have to prove the agglomeration algorithms correct over all graphs, which is out of reach of the family here.")
