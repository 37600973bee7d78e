HOOKS = ["170c9c3"]
SCH = ["schedules", "inputs", "configurations"]
TESTS = ("The test-suite samples a few shapes, one or two primes and whatever schedule the machine happens to produce with four threads and the shipped thresholds; ")

P("C01", "Matrix multiplication is exact under every parallel strategy and schedule",
  "Matrix multiplication C <- alpha.op(A).op(B) + beta.C over a prime field gives exactly the mathematical result, in reduced form, for every operand shape, leading dimension, "
  "transposition, scalar pair and supported modulus, sequentially or with any parallel cutting strategy, number of threads and schedule. "
  "It reads C only when beta is non-zero, never modifies A or B, and writes nothing outside the m x n block of C.",
  SCH, "all dimensions including zero, all strategies, moduli up to the field's maximum, thread counts, task schedules and preemptions, tuning thresholds",
  TESTS + "the recursive cutting strategies and their cross-over thresholds are barely reached at test sizes, and a missing synchronisation shows only under particular interleavings.",
  ["fflas-ffpack/fflas/fflas_fgemm.inl", "fflas-ffpack/fflas/fflas_pfgemm.inl", "fflas-ffpack/fflas/fflas_fgemm/", "fflas-ffpack/paladin/pfgemm_variants.inl", "fflas-ffpack/paladin/blockcuts.inl", "fflas-ffpack/paladin/parallel.h"],
  [("cutting strategies and task dependences", "paladin/pfgemm_variants.inl"), ("Winograd schedules and delayed reduction bounds", "fflas/fflas_fgemm/schedule_winograd*.inl, fflas/fflas_helpers.inl"), ("block partition of rows and columns", "paladin/blockcuts.inl")])

P("C02", "Triangular solve, product and inversion are exact for every call and schedule",
  "Triangular solves (matrix and vector right-hand sides), triangular products (in place and out of place), triangular inversion and products of two triangular factors give exactly the mathematical result "
  "for every side, triangle, transposition, diagonal kind, scalar, shape, stride and supported modulus, sequentially or in parallel under every schedule. "
  "Only the designated triangle of the triangular operand is read, it is left unchanged where documented as input, and nothing outside the result operand is written.",
  SCH, "all option combinations, dimensions including zero, moduli up to the field's maximum, parallel helpers, schedules, thresholds",
  TESTS + "option combinations at block boundaries, empty operands, scalar zero and the parallel splittings of the right-hand side are not enumerated.",
  ["fflas-ffpack/fflas/fflas_ftrsm.inl", "fflas-ffpack/fflas/fflas_ftrsm_src.inl", "fflas-ffpack/fflas/fflas_ftrmm.inl", "fflas-ffpack/fflas/fflas_ftrmm_src.inl", "fflas-ffpack/fflas/fflas_ftrsv.inl", "fflas-ffpack/ffpack/ffpack_ftrtr.inl", "fflas-ffpack/fflas/fflas_pftrsm.inl"],
  [("delayed-reduction recursion", "fflas/fflas_ftrsm_src.inl"), ("iterative / recursive / hybrid parallel splitting", "fflas/fflas_pftrsm.inl"), ("recursive inversion", "ffpack/ffpack_ftrtr.inl")])

P("C03", "Eliminations return a true factorization and rank on every matrix and schedule",
  "The PLUQ and LU-type eliminations of any matrix over a prime field, sequential or parallel, return the exact rank, valid permutations, and triangular factors whose product is the input matrix. "
  "The row and column rank profiles and the pivot positions revealed by the permutations are those of the input matrix for the variants that promise them. "
  "This holds for every rank deficiency, shape, modulus, number of threads, cutting threshold and task schedule, and memory outside the matrix is not written.",
  SCH, "matrices of every shape, rank and rank profile, moduli, base-case thresholds, thread counts, schedules",
  TESTS + "rank profiles, base-case boundaries and schedules are sampled only at random generic points, and the parallel elimination is checked on a handful of schedules.",
  ["fflas-ffpack/ffpack/ffpack_pluq.inl", "fflas-ffpack/ffpack/ffpack_ppluq.inl", "fflas-ffpack/ffpack/ffpack_pluq_mp.inl", "fflas-ffpack/ffpack/ffpack_ludivine.inl", "fflas-ffpack/ffpack/ffpack_permutation.inl"],
  [("task graph of the parallel block elimination", "ffpack/ffpack_ppluq.inl"), ("tile-recursive elimination and Crout base case", "ffpack/ffpack_pluq.inl"), ("composition of permutations", "ffpack/ffpack_permutation.inl")])

P("C04", "Rank, det, solve, inverse, echelon form, profiles, null space are exact",
  "Rank, determinant, singularity test, linear system solving, inversion, (reduced) row and column echelon forms with their transformations, rank profiles, rank-profile sub-matrices and null-space bases "
  "are exactly correct for every input matrix, option, stride and modulus, sequentially or in parallel under every schedule. "
  "Inconsistent or singular systems are reported as such, never answered with a wrong solution.",
  SCH, "all shapes, ranks, rank profiles, options, moduli, parallel helpers and schedules",
  TESTS + "options such as strides, side, algorithm tag and rank-deficient inputs are combined in very few ways.",
  ["fflas-ffpack/ffpack/ffpack_rankprofiles.inl", "fflas-ffpack/ffpack/ffpack_echelonforms.inl", "fflas-ffpack/ffpack/ffpack_fgesv.inl", "fflas-ffpack/ffpack/ffpack_fgetrs.inl", "fflas-ffpack/ffpack/ffpack_invert.inl", "fflas-ffpack/ffpack/ffpack.inl", "fflas-ffpack/ffpack/ffpack_det_mp.inl"],
  [("drivers over the eliminations", "ffpack/ffpack.inl"), ("echelon forms and transformation extraction", "ffpack/ffpack_echelonforms.inl"), ("solvers", "ffpack/ffpack_fgesv.inl, ffpack/ffpack_fgetrs.inl")])

P("C05", "Vector, matrix-vector, element-wise and permutation operations are exact",
  "Dot products, matrix-vector products, rank-one updates, scaling, addition, subtraction, copy, swap, comparison, conversion, reduction, transposition, squaring and row/column permutation of matrices and vectors give exactly the mathematical result "
  "for every shape, stride, leading dimension, scalar and supported modulus, sequentially or in parallel under every schedule. "
  "Read-only operands stay unchanged and nothing outside the result (in particular padding between rows and gaps between strided entries) is written.",
  SCH, "all dimensions including zero, strides, padded leading dimensions, scalars, moduli, parallel helpers, schedules",
  TESTS + "strided and padded operands, empty operands and the parallel splittings are sampled at few points.",
  ["fflas-ffpack/fflas/fflas_fdot.inl", "fflas-ffpack/fflas/fflas_fgemv.inl", "fflas-ffpack/paladin/pfgemv.inl", "fflas-ffpack/fflas/fflas_fger.inl", "fflas-ffpack/fflas/fflas_fscal.inl", "fflas-ffpack/fflas/fflas_fadd.inl", "fflas-ffpack/fflas/fflas_freduce.inl", "fflas-ffpack/ffpack/ffpack_permutation.inl", "fflas-ffpack/fflas/fflas_level1.inl", "fflas-ffpack/fflas/fflas_level2.inl", "fflas-ffpack/fflas/fflas_transpose.h"],
  [("block cuts of the parallel loops", "paladin/blockcuts.inl"), ("delayed reduction in accumulations", "fflas/fflas_fdot.inl, fflas/fflas_fgemv.inl"), ("in-place permutation application", "ffpack/ffpack_permutation.inl")])

P("C06", "Symmetric products and factorizations are exact for every call and schedule",
  "Symmetric rank-k and rank-2k updates (plain, with a diagonal or block-diagonal weight, by any of the algorithms offered), products of triangular matrices, symmetric triangular updates and "
  "the symmetric L D L^T-type factorizations (plain and rank-profile revealing, sequential and parallel) give exactly the mathematical result for every triangle, transposition, scalar, shape, leading dimension and supported odd modulus. "
  "The result depends only on the designated triangle of a symmetric or triangular operand, operands documented as input are unchanged, and a factorization that needs a generic rank profile reports failure instead of returning wrong factors.",
  SCH, "all option combinations, algorithms, dimensions including zero, scalars, moduli up to the field's maximum, recursion thresholds, parallel helpers, schedules",
  TESTS + "empty operands, dimensions below the recursion cut, extreme entries that exhaust the delayed-reduction bounds and matrices without generic rank profile are not enumerated.",
  ["fflas-ffpack/fflas/fflas_fsyrk.inl", "fflas-ffpack/fflas/fflas_fsyrk_strassen.inl", "fflas-ffpack/fflas/fflas_fsyr2k.inl", "fflas-ffpack/ffpack/ffpack_fsytrf.inl", "fflas-ffpack/ffpack/ffpack_ftrstr.inl", "fflas-ffpack/ffpack/ffpack_ftrssyr2k.inl"],
  [("Strassen-like symmetric product and its bounds", "fflas/fflas_fsyrk_strassen.inl"), ("recursive symmetric elimination", "ffpack/ffpack_fsytrf.inl")])

P("C07", "Sparse matrix products are exact for every matrix, block and schedule",
  "The products y <- A.x + beta.y and Y <- A.X + beta.Y of a sparse matrix stored in CSR, COO or ELL form, with stored values or as 'zero-one' matrix (one common constant), by a dense vector or block of vectors give exactly the mathematical result in reduced form "
  "for every sparsity pattern (empty rows included), constant, scalar, block width, leading dimension and supported modulus, sequentially or (CSR block products) in parallel under every schedule. X is unchanged and nothing outside Y is written.",
  SCH, "all sparsity patterns, formats, constants, scalars, block widths, leading dimensions, alignments, moduli up to the field's maximum, thread counts and schedules",
  TESTS + "padded or unaligned blocks, constants other than one, beta other than 0 and 1, and rows long enough to exhaust the delayed-reduction bound are not sampled.",
  ["fflas-ffpack/fflas/fflas_sparse.inl", "fflas-ffpack/fflas/fflas_sparse/csr/", "fflas-ffpack/fflas/fflas_sparse/coo/", "fflas-ffpack/fflas/fflas_sparse/ell/"],
  [("dispatch on field category, constant and alignment", "fflas/fflas_sparse.inl"), ("delayed reductions", "fflas/fflas_sparse/*/*_spmv.inl, *_spmm.inl"), ("row blocks of the parallel product", "fflas/fflas_sparse/csr/csr_pspmm.inl")],
  note="CSR_HYB, HYB_ZO, SELL and ELL_simd formats are not covered (unfinished in the repository, see DESIGN.md).")

P("C08", "Multiprecision results over Z and large moduli are exact under every schedule",
  "Matrix products over the integers, over Z/pZ with a multiprecision p and over fixed-size multiprecision residues, conversions between integers and residue number systems, and over Z/pZ the triangular solves, PLUQ eliminations, "
  "inverses and vector operations, as well as determinants and characteristic polynomials over the integers, give exactly the mathematical result "
  "for every sign and size of the entries, scalars, shape, leading dimension and modulus, whatever primes the residue number system draws, sequentially or in parallel under every schedule. The former contents of an output are used only through beta.",
  SCH, "entries of both signs and any bit size, zero operands, empty dimensions, scalars, strides, moduli, drawn primes, cutting strategies, thread counts and schedules",
  TESTS + "entries that exhaust the bound of the residue number system, negative extremes, zero operands with a non-trivial beta and the parallel splitting over the moduli are not sampled.",
  ["fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl", "fflas-ffpack/field/rns-double.inl", "fflas-ffpack/field/rns-double-recint.inl", "fflas-ffpack/field/rns-integer.h", "fflas-ffpack/field/rns-integer-mod.h", "fflas-ffpack/fflas/fflas_ftrsm_mp.inl", "fflas-ffpack/ffpack/ffpack_pluq_mp.inl", "fflas-ffpack/ffpack/ffpack_det_mp.inl", "fflas-ffpack/ffpack/ffpack_charpoly_mp.inl"],
  [("bounds that size the residue number system", "fflas/fflas_fgemm/fgemm_classical_mp.inl, ffpack/ffpack_det_mp.inl, ffpack/ffpack_charpoly_mp.inl"), ("conversions", "field/rns-double.inl"), ("parallel loop over the moduli", "fflas/fflas_fgemm/fgemm_classical_mp.inl")])

P("C09", "Parallel routines are free of data races under every schedule",
  "In every parallel routine (matrix product, triangular solve, eliminations, solvers and the other drivers, level-1/2 operations, symmetric products) no two tasks or threads ever access the same memory location concurrently, one of them writing, "
  "without a synchronisation that orders the two accesses. This holds for every cutting strategy, number of threads, task schedule, shape and threshold, whatever part of the accesses happens inside the BLAS.",
  SCH, "all schedules, cutting strategies, thread counts, shapes and thresholds",
  TESTS + "a race changes the result only under particular interleavings, so a passing test says nothing about it.",
  ["fflas-ffpack/paladin/parallel.h", "fflas-ffpack/paladin/pfgemm_variants.inl", "fflas-ffpack/fflas/fflas_pftrsm.inl", "fflas-ffpack/paladin/pfgemv.inl", "fflas-ffpack/ffpack/ffpack_ppluq.inl", "fflas-ffpack/fflas/fflas_fdot.inl", "fflas-ffpack/ffpack/ffpack.inl"],
  [("task synchronisation macros", "paladin/parallel.h"), ("synchronisation of the block elimination", "ffpack/ffpack_ppluq.inl")],
  note="Races are decided by happens-before over instrumented accesses of the repository's code and over the declared operand footprint of each BLAS call.",
  tech="deterministic simulation: seeded search over schedules with a happens-before race detector as the invariant", observe=["memory accesses of the tasks of each parallel region and the synchronisation between them"])

P("C10", "Concurrent callers on shared operands each get the result they get alone",
  "When several threads of an application call the library at the same time, sharing the field object and read-only operands (dense matrices, sparse matrices) but no output and no random generator, every caller obtains exactly the result the same calls give when run alone. "
  "No call keeps hidden mutable state shared with other calls, so no memory location is accessed by two callers at once with one of them writing, first calls in the process included; shared operands are unchanged and no memory is leaked.",
  SCH, "all pairs and sequences of operations, numbers of callers, interleavings, first and later calls, callers that are themselves parallel",
  TESTS + "every test calls the library from one thread.",
  ["fflas-ffpack/fflas/", "fflas-ffpack/ffpack/", "fflas-ffpack/field/", "fflas-ffpack/paladin/", "fflas-ffpack/utils/"],
  [("operations without global state", "fflas/, ffpack/"), ("temporary residue number systems and buffers", "fflas/fflas_fgemm/fgemm_classical_mp.inl, utils/fflas_memory.h")],
  tech="deterministic simulation: simulated caller threads interleaved by a seeded scheduler, run-alone results as the reference and a happens-before race detector as the invariant")

P("C11", "No routine reads or writes outside its operands, uses freed memory or leaks",
  "No call reads or writes memory outside the operands it was given and the buffers it allocates, uses memory after releasing it, releases memory twice or with the wrong deallocator, or depends on the contents of memory it has not initialised. "
  "When the call returns, every buffer it allocated has been released, except those it hands to the caller. This holds for every shape including empty ones, stride, modulus, threshold, number of threads and schedule.",
  SCH, "all shapes including empty and single row/column, strides, moduli, thresholds, schedules, heap placements and heap contents",
  TESTS + "an overrun or a read of stale memory passes unnoticed when the allocator happens to leave slack or zeros there.",
  ["fflas-ffpack/utils/fflas_memory.h", "fflas-ffpack/utils/align-allocator.h", "fflas-ffpack/fflas/", "fflas-ffpack/ffpack/", "fflas-ffpack/paladin/"],
  [("temporary buffers", "utils/fflas_memory.h"), ("workspaces of eliminations and drivers", "ffpack/")],
  tech="deterministic simulation: simulated allocator with poisoned heap, guard zones and access checks as invariants over seeded schedules and inputs", observe=["every memory access of the repository's code and the operand footprint of each BLAS call", "allocations still live when the call returns"])

P("C12", "Characteristic and minimal polynomials are exact whatever the random draws",
  "The characteristic polynomial of a square matrix over a prime field, as one polynomial or as a list of monic factors, by the automatic choice or any of the supported deterministic and Las Vegas variants, is exactly right for every matrix "
  "(nilpotent, scalar, derogatory, sparse, any rank), order, leading dimension, block degree and modulus, and for every sequence of random draws. "
  "The minimal polynomial of a matrix and a vector is exact, and the randomised minimal polynomial of a matrix is always monic, always divides the true one and misses it only with the advertised small probability.",
  ["inputs", "histories", "configurations"], "matrices of every similarity type, orders including zero, variants, block degrees, moduli, seeds and outcomes of the random draws",
  TESTS + "the unlucky draws that a Las Vegas algorithm must detect are too rare to be met by a few generic matrices.",
  ["fflas-ffpack/ffpack/ffpack_charpoly.inl", "fflas-ffpack/ffpack/ffpack_frobenius.inl", "fflas-ffpack/ffpack/ffpack_charpoly_danilevski.inl", "fflas-ffpack/ffpack/ffpack_minpoly.inl", "fflas-ffpack/ffpack/ffpack_krylovelim.inl"],
  [("Las Vegas checks of the block Krylov phases", "ffpack/ffpack_frobenius.inl"), ("fall-back after failed attempts", "ffpack/ffpack_charpoly.inl"), ("online elimination of the Krylov matrix", "ffpack/ffpack_minpoly.inl")],
  note="The randomness of the generators is simulated (every seed is a function of the run seed, default seeds come from the simulated clock); small moduli make unlucky draws frequent. Keller-Gehrig benchmark variants (KG, KGFast, KGFastG, Hybrid), documented as incomplete, are not covered.")

P("C13", "Result checkers accept every correct result whatever their random draws",
  "The certificate checkers for matrix product, triangular solve, PLUQ elimination, determinant, inversion and characteristic polynomial, used directly or built into the operations, accept every correct result: for every shape including empty ones, leading dimension, option, rank and modulus, "
  "and for every seed or clock reading their random vectors derive from. Checking modifies neither the operands nor the result, and releases all its memory.",
  ["inputs", "histories", "configurations"], "operations, shapes, ranks, options, leading dimensions, moduli, seeds and clock readings of the draws",
  TESTS + "the checkers are exercised on a few full-rank square cases with compact storage.",
  ["fflas-ffpack/checkers/"],
  [("construction before, verification after the operation", "checkers/checker_*.inl"), ("built-in use", "fflas/fflas_fgemm.inl, fflas/fflas_ftrsm.inl, ffpack/ffpack_pluq.inl, ffpack/ffpack_invert.inl, ffpack/ffpack_charpoly.inl")])

P("C14", "Result checkers detect corrupted results except with tiny stated probability",
  "When a matrix product, triangular solve, PLUQ elimination, determinant, inverse or characteristic polynomial is wrong in any number of entries, permutations, rank or sign, its checker reports failure by the documented exception, except with the probability inherent in its random projection (at most about 1/p per check, n/p for the characteristic polynomial). "
  "The operations with the checks built in therefore never keep returning a wrong result silently when a computation underneath them is corrupted, whatever the point at which the fault strikes.",
  ["fault_sequences", "inputs", "histories"], "single and multiple corrupted entries (including cancelling ones), permutations, ranks, signs; corruption of any one BLAS call inside the operation; all draws",
  TESTS + "no test injects a fault, so a checker that accepts everything would pass.",
  ["fflas-ffpack/checkers/"],
  [("random projections", "checkers/checker_*.inl")],
  note="Each faulty result is checked by as many independently seeded checks as bring the probability of a legitimate miss below 1e-13.",
  tech="deterministic simulation with fault injection: corruption of results and of BLAS calls under seeded search, detection as the invariant")

P("C15", "Random generators deliver exactly the advertised kind of matrix for every draw",
  "Random vectors, matrices, permutations and index subsets, and random matrices that are non-zero, triangular, symmetric, of prescribed rank, of prescribed rank profile matrix (plain or symmetric), of prescribed determinant or left triangular of prescribed quasi-separability order, "
  "have exactly the advertised property for every seed, clock reading, shape, rank and modulus. Only entries of the result are written, all of them are valid reduced elements, and the generation always terminates.",
  ["histories", "inputs", "configurations"], "all seeds and outcomes of the draws (small moduli make zero and repeated draws frequent), shapes including empty, ranks, leading dimensions, moduli",
  TESTS + "the generators are used by the tests, which then check only what they generated for generic seeds; unlucky draws (a zero pivot, an off-diagonal last pivot, an undone move) are too rare to be met.",
  ["fflas-ffpack/utils/fflas_randommatrix.h", "fflas-ffpack/fflas/fflas_level1.inl", "fflas-ffpack/fflas/fflas_level2.inl"],
  [("generators", "utils/fflas_randommatrix.h")],
  tech="deterministic simulation: every random draw is a function of the run seed or of the simulated clock; seeded search over draws and shapes, advertised property as the invariant")

P("C16", "Matrix files round-trip exactly and damaged ones are never read silently",
  "Writing a dense matrix over a prime field, stored by rows or by columns with any leading dimension, to a file in dense, SMS or binary format and reading it back, with the format given or detected, gives the same matrix, however the operating system splits, interrupts or delays the reads and writes; printing formats show exactly the entries, and sparse SMS files in any entry order give exactly the matrix they describe. "
  "A file that is truncated, torn, malformed, missing or unreadable always ends in a reported failure, never in a hang, a memory overrun or a matrix of stale entries, and a write error or a full disk is reported.",
  ["fault_sequences", "inputs", "crash_points"], "shapes including empty, storage orders, formats, moduli; short reads and writes, interrupted calls, read errors, write errors and full disk at any byte, files torn at any byte, malformed entries",
  TESTS + "one intact compact file per format is read back.",
  ["fflas-ffpack/utils/fflas_io.h", "fflas-ffpack/fflas/fflas_sparse/read_sparse.h"],
  [("format parsing", "utils/fflas_io.h"), ("sparse file parsing", "fflas/fflas_sparse/read_sparse.h")],
  note="Truncations that leave a syntactically complete file (a shortened last number of a dense text file) are not failures of the reader.",
  tech="deterministic simulation with fault injection: simulated file descriptors with short, interrupted and failing operations and torn files under seeded search, an independent parser as the reference")

P("C17", "Quasi-separable generators represent exactly their matrix and its products",
  "The Bruhat and SSS (quasi-separable) generators computed from a matrix represent exactly that matrix: expanding them, extracting their compressed factors, compressing to and expanding from the compact block form, and multiplying them by a block of vectors give exactly the result of the same operation on the dense matrix, "
  "for every matrix of the advertised structure, quasi-separability order, block size, leading dimension, scalar and modulus, the empty matrix included. "
  "This holds whatever fresh memory contains and while other threads of the application work on other generators; inputs are unchanged where documented, nothing outside the results is written and no workspace is leaked.",
  ["schedules", "inputs", "configurations"], "interleavings with another caller, heap contents and placement; left triangular matrices of every rank profile and order, block sizes, leading dimensions, right-hand sides, scalars, moduli",
  TESTS + "the generators are tested on compact square storage with one block size per run.",
  ["fflas-ffpack/ffpack/ffpack_bruhatgen.inl", "fflas-ffpack/ffpack/ffpack_sss.inl"],
  [("Bruhat generator, compact form and product", "ffpack/ffpack_bruhatgen.inl"), ("SSS generators, expansion and product", "ffpack/ffpack_sss.inl")],
  note="Rank 0 for the compact Bruhat form and a block size larger than the order for SSS are outside the domain. This code has no internal parallelism: the simulated nondeterminism is a concurrent caller, the heap contents and placement, and the thresholds.")

P("C18", "Running out of memory is never answered with a wrong result",
  "When an allocation made inside an operation fails, at any point of the operation and under any schedule, once or from then on, the operation either still delivers the exact result or stops (by an exception or by ending the process); "
  "it never returns a wrong result as if it had succeeded and never writes outside its operands on the way.",
  ["fault_sequences", "schedules", "inputs"], "every allocation point of every operation, single and persistent failures, shapes, moduli, schedules",
  TESTS + "no test makes an allocation fail.",
  ["fflas-ffpack/utils/align-allocator.h", "fflas-ffpack/utils/fflas_memory.h", "fflas-ffpack/fflas/", "fflas-ffpack/ffpack/"],
  [("aligned allocation", "utils/align-allocator.h, utils/fflas_memory.h")],
  note="A failed allocation that surfaces as an access to the null page counts as stopping: that is what the library relies on today.",
  tech="deterministic simulation with fault injection: the simulated allocator fails the n-th allocation (once or persistently), exact result or fail-stop as the invariant",
  observe=["values written to the caller's output operands when the call returns", "memory accesses of the operation", "how the operation ends"])

P("C19", "Parallel loops visit each index once and tasks respect declared dependences",
  "For every range, cutting strategy, strategy parameter and number of threads, the one- and two-dimensional parallel loops and block iterations of the parallel layer visit every index exactly once in blocks that partition the range, have no more blocks than threads asked for where the strategy promises it, and are complete when the construct ends. "
  "Programs of tasks with declared reads and writes, and nested groups of tasks, give the result of executing the tasks in program order under every schedule, in the sequential, the explicitly synchronised and the data-flow mode.",
  ["schedules", "programs", "inputs", "configurations"], "ranges including empty, cutting strategies and parameters, thread counts beyond the range, task programs, nesting depths, schedules, preemptions, compilation modes",
  TESTS + "the tests run two fixed task programs and a few loops on whatever schedule occurs.",
  ["fflas-ffpack/paladin/parallel.h", "fflas-ffpack/paladin/blockcuts.inl"],
  [("task, group and loop constructs", "paladin/parallel.h"), ("cutting of ranges", "paladin/blockcuts.inl")],
  tech="deterministic simulation: seeded search over task programs and schedules, sequential execution as the reference model, happens-before race detector as invariant", observe=["number of visits of every index", "values of the cells after the program"])

P("C20", "Every operation ends within bounded work under every schedule and draw",
  "Every operation returns after a bounded amount of work, under every schedule: with any number of threads down to one, teams smaller than asked for, tasks executed late, immediately or by stalled workers, and nested or concurrent parallel callers, no call deadlocks or spins for ever. "
  "The same holds for every shape including empty operands, every threshold and every outcome of the random draws of the Las Vegas algorithms and generators.",
  ["schedules", "inputs", "histories", "configurations"], "shapes including empty, thresholds, thread counts, delivered team sizes, task schedules, stalled workers, seeds and clock readings",
  TESTS + "a hang needs an unlucky draw, an empty operand at a particular recursion level or a schedule the machine does not produce.",
  ["fflas-ffpack/paladin/", "fflas-ffpack/fflas/fflas_pftrsm.inl", "fflas-ffpack/ffpack/ffpack_ppluq.inl", "fflas-ffpack/ffpack/ffpack_charpoly.inl", "fflas-ffpack/utils/fflas_randommatrix.h"],
  [("recursive and iterative splittings", "fflas/fflas_pftrsm.inl, paladin/"), ("retry loops on random draws", "ffpack/ffpack_charpoly.inl, utils/fflas_randommatrix.h")],
  note="Bound: simulated steps and processor time of a run, far above the largest value seen on the unchanged tree.",
  tech="deterministic simulation: seeded search over schedules and draws with deadlock detection and a bound on simulated steps as the liveness check", observe=["return of the call", "simulated steps"])

P("C21", "The C interface and precompiled library give the exact results of the operation",
  "For every operation, characteristic, positive or balanced representation, shape including empty, leading dimension, stride and option, the C function of the precompiled library computes exactly what the operation is defined to compute, passes every argument in its declared position, writes nothing outside its output operands and hands over the arrays it allocates. "
  "The functions that run in parallel do so under every schedule.",
  ["inputs", "schedules", "configurations"], "operations of the C interface, characteristics, representations, shapes, leading dimensions, strides, options, algorithm thresholds, schedules",
  TESTS + "the tests call a handful of the C functions on one shape.",
  ["fflas-ffpack/interfaces/libs/"],
  [("argument passing and choice of the representation", "interfaces/libs/fflas_lvl1.C, fflas_lvl2.C, fflas_lvl3.C, ffpack.C"), ("explicit instantiations", "interfaces/libs/*_inst.C, *_inst_implem.inl"), ("declarations", "interfaces/libs/fflas_c.h, ffpack_c.h")],
  note="The sources of the library are built for the simulator from the working tree; the workloads and oracles are those of C01-C05, with every call routed through the C function.")
