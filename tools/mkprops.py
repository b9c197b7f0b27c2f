#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as one editable source)."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})

prop("C01", "Vector operations compute their definition for every length and stride",
 "For every vector operand (column, row, sub-vector or diagonal view of any length, including 0 and 1, with any stride) and every scalar, the vector operations (dot, scaled dot, absolute sum, 2-norm, absolute max and its index, axpy, axpby, scale, copy, swap) deliver the mathematically defined result to within working-precision rounding. The summation option chosen in the configuration (naive, Kahan, pairwise, recursive) never changes the result by more than rounding. Index of absolute maximum is an index whose element has the largest magnitude.",
 ["inputs", "configurations"], "all vector shapes, lengths (crossing the unrolling and recursion thresholds), strides, scalars (0, 1, -1, other), aliasing-free operand pairs, summation options",
 "Tests use one contiguous length per run and compare operations against each other; unroll remainders, strided/row views, special scalars and recursion limits are combinations they sample at a single point.",
 ["src/blas/dot.c", "src/blas/asum.c", "src/blas/nrm2.c", "src/blas/iamax.c", "src/blas/axpy.c", "src/blas/swap.c", "src/blas/mcopy.c", "src/blas/mscale.c", "src/blas/madd.c"],
 [("dispatch on option, stride and recursion limit; unrolled kernels with remainder handling", "src/blas/dot.c, src/blas/axpy.c, src/blas/asum.c, src/blas/nrm2.c")],
 ["return values and contents of result vectors"])

prop("C02", "Matrix-vector operations compute their definition for every shape and flag",
 "For every matrix shape, leading dimension, vector stride, scalar pair and flag combination accepted, the matrix-vector operations (general, symmetric and triangular products, triangular solve, and the general, triangular, symmetric rank-1 and rank-2 updates) produce the result that the textbook definition gives, to within the standard componentwise rounding bound. Flags (transpose, lower/upper, unit diagonal, absolute value) select exactly the documented operation, and elements a flag declares not referenced never influence the result.",
 ["inputs", "configurations"], "all m x n including 0, 1 and non-multiples of the vector width, all flag combinations, alpha/beta in {0,1,-1,other}, row and column vectors, padded matrices",
 "Tests fix square sizes and default blocking and check only norm identities between two library calls; errors needing one remainder size, a row-vector operand or a specific flag pair escape them.",
 ["src/blas/gemv.c", "src/blas/symv.c", "src/blas/trmv.c", "src/blas/trsv.c", "src/blas/ger.c", "src/blas/syr.c", "src/blas/syr2.c", "src/blas/updtrmv.c"],
 [("flag-driven choice of kernel, recursion on dimension above blas2min", "src/blas/gemv.c, src/blas/trsv.c, src/blas/trmv.c")],
 ["result vector or matrix after each call"])

prop("C03", "Matrix-matrix operations compute their definition for every shape and flag",
 "For every operand shape, leading dimension, scalar pair and flag combination accepted, the matrix-matrix operations (general, symmetric and triangular products, triangular solve with many right hand sides, symmetric rank-k and rank-2k updates, and the triangular-part-only general update) produce the result of the textbook definition to within the componentwise rounding bound. Flags (left/right, transposes, lower/upper, unit diagonal, absolute value) select exactly the documented operation, and operand elements that a flag declares not referenced never influence the result.",
 ["inputs", "configurations"], "all m,n,k from 0 through several cache blocks including non-multiples of register and cache blocks, all flag combinations, scalars, padded leading dimensions",
 "Each test runs a handful of fixed sizes with default blocking; the fringe code paths are selected by residues of three dimensions times flags times block sizes, a space tests cannot enumerate.",
 ["src/blas/gemm.c", "src/blas/kernel.c", "src/blas/symm.c", "src/blas/trmm.c", "src/blas/trsm.c", "src/blas/syrk.c", "src/blas/syr2k.c", "src/blas/updtrmm.c", "src/include/x86_64", "src/include/matcpy.h"],
 [("packing into cache buffer plus SIMD micro-kernels with fringe handling", "src/blas/kernel.c, src/include/x86_64"), ("blocked/recursive triangular algorithms", "src/blas/trmm_blk.c, src/blas/trsm_blk.c")],
 ["result matrix after each call"])

prop("C04", "Views, element access and element-wise utilities act on the named elements",
 "A row, column, sub-matrix, sub-vector or diagonal view addresses exactly the elements of its parent that its indices name (negative indices counting from the end), so that reading or writing through the view and through the parent agree. Copying (plain and transposing), scaling, adding a constant, scaled addition of two matrices, element-wise apply/iterate/set, triangular extraction, tolerance comparison and the norms act on exactly the elements selected by shape and flags and yield the defined values.",
 ["inputs", "histories"], "all shapes incl. empty, vectors and padded views, chains of views, all flags, positive and negative indices",
 "Tests touch a few fixed shapes and only the default flags of a few of these functions.",
 ["src/include/matrix.h", "src/base/matrix.c", "src/base/matrix_ext.c", "src/blas/mcopy.c", "src/blas/mscale.c", "src/blas/madd.c", "src/blas/mplus.c", "src/blas/mapply.c", "src/blas/mset.c", "src/blas/mnorm.c"],
 [("index arithmetic over (rows, cols, step, elems)", "src/include/matrix.h")],
 ["element values through parent and view; return values"])

prop("C05", "Operations write only the elements that belong to their result",
 "Every dense operation leaves bit-for-bit unchanged all memory other than the documented result elements: read-only operands, the gap between rows and leading dimension, the elements before and after a view, and the opposite triangle (and unit diagonal) when only a triangle is the result. This holds for any view of a larger matrix, at any offset and shape.",
 ["inputs", "configurations"], "all BLAS and factorization/build/solve routines, all flags, shapes and view placements inside a larger parent matrix",
 "Tests operate on whole, tightly packed matrices, so stray writes fall into unobserved padding or are never possible.",
 ["src/blas", "src/lapack", "src/eblas", "src/include/x86_64"],
 [("fringe stores in micro-kernels; triangle-restricted updates", "src/blas/kernel.c, src/blas/updtrmm.c, src/blas/syrk.c")],
 ["parent matrix around the result, const operands"])

prop("C06", "Results do not depend on blocking, cache or buffer configuration",
 "For the same operands, results agree to within rounding whatever the block sizes, cache-buffer sizes, recursion thresholds and algorithmic block length in effect, and whether the cache buffer is the per-thread global one, a call-local one or user-supplied memory. Any such configuration is either usable or rejected with an error; it never yields a wrong result.",
 ["inputs", "configurations"], "all configurations (mb, nb, kb, lb, thresholds, cache sizes, buffer mode, optflags) x operations x shapes",
 "Tests run under one default configuration, where most matrices fit in one block.",
 ["src/base/env.c", "src/base/cache.c", "src/base/armas.c", "src/blas", "src/lapack"],
 [("block sizes derived from environment and cache buffer", "src/base/cache.c, src/base/env.c"), ("blocked vs unblocked algorithm choice", "src/lapack")],
 ["results under two configurations and against a reference"])

prop("C07", "Parallel execution gives the sequential result on every schedule",
 "With any accelerator (simple recursive, persistent workers, transient workers), any scheduling and partitioning policy, any number of workers and any shape, also when the system refuses some or all of the threads asked for, matrix products and solves return the same result as the sequential code to within rounding, and always return. Concurrent calls from several application threads on unrelated data, sharing an accelerator or not, each return their own correct result.",
 ["inputs", "schedules", "configurations"], "all accelerators x policies x worker counts x shapes x number of concurrent callers, under randomly perturbed schedules",
 "Tests run a single caller with one policy on few sizes; block boundaries between tasks and the interleavings of queue and counter updates are not exercised systematically.",
 ["src/threaded", "src/workers", "src/base/accel.c", "src/base/cache.c"],
 [("task partitioning into blocks, request queue and completion counters", "src/workers/workers.c, src/workers/entry.c, src/threaded/entry.c"), ("per-thread cache buffers", "src/base/cache.c")],
 ["result matrices; calls return"])

prop("C08", "Extended-precision operations are as accurate as doubled working precision",
 "Extended-precision operations (dot, sums, axpby, matrix-vector, matrix-matrix, symmetric, triangular products and solves, rank updates) return the defined result with an error bounded by working precision of the result plus a multiple of unit roundoff squared times the condition of the sum. So massively cancelling data that ruins plain arithmetic is still computed accurately, for all shapes, strides and flags.",
 ["inputs"], "all shapes, strides, flags, scalars; data with condition numbers from 1 to 1e25",
 "Tests use a generated ill-conditioned dot of one size; matrix versions are checked on single shapes only.",
 ["src/eblas", "src/include/eft.h", "src/include/kernel_ext.h"],
 [("error-free transformations twosum/twoprod accumulate a compensated result", "src/include/eft.h, src/eblas/kernel_ext.c")],
 ["result values against exact reference"])

prop("C09", "QR, LQ, QL and RQ factorizations reproduce the matrix with orthogonal factors",
 "For every matrix shape a factorization accepts, the QR, LQ, QL, RQ (and compact-WY QR) factors multiply back to the original matrix and Q is orthogonal, both to within a modest multiple of rounding of the norm. Building Q explicitly, multiplying by Q or its transpose from either side, and the least-squares / minimum-norm solvers are consistent with that same Q, whichever of the blocked and unblocked paths is taken and whatever the magnitudes of the data.",
 ["inputs", "configurations"], "all m,n,k allowed, block lengths, sides and transposes, rank-deficient, graded and zero matrices",
 "Tests take one tall shape and few block sizes; wide/tall edge shapes, partial builds and degenerate columns are not covered.",
 ["src/lapack/qr.c", "src/lapack/lq.c", "src/lapack/ql.c", "src/lapack/rq.c", "src/lapack/qrt.c", "src/lapack/qrbld.c", "src/lapack/qrmult.c", "src/lapack/qrsolve.c", "src/lapack/lqsolve.c", "src/lapack/lqmult.c", "src/lapack/qlmult.c", "src/lapack/rqmult.c"],
 [("Householder reflectors and block reflectors", "src/lapack/house.c, src/lapack/qr.c")],
 ["factors, built Q, products and solutions"])

prop("C10", "LU factorization reproduces P*A = L*U with partial pivoting and solves systems",
 "For every matrix shape, LU factorization with partial pivoting yields a permutation, a unit lower L with no entry larger than one in magnitude and an upper U whose product is the permuted input to within rounding, and without pivoting L*U equals the input when that factorization exists. The solver with the factors gives a backward-stable solution for A and for its transpose for any number of right-hand sides, and exact singularity is reported rather than silently ignored.",
 ["inputs", "configurations"], "all m x n, block lengths, singular and near singular inputs, ties in pivot choice, transposed solves",
 "Tests use random square non-singular matrices and one rectangular shape.",
 ["src/lapack/lu.c", "src/base/pivot.c", "src/base/pivot_ext.c"],
 [("left-looking/recursive blocked factorization with pivot bookkeeping", "src/lapack/lu.c")],
 ["factors, pivots, solutions, error codes"])

prop("C11", "Cholesky factorization reproduces SPD matrices, reports rank and indefiniteness",
 "For symmetric positive definite input the Cholesky factor (lower or upper) multiplies back to the input to within rounding, touches only its triangle, and solves systems backward-stably. With pivoting on a positive semidefinite input the factor reproduces the symmetrically permuted matrix and the returned rank agrees with the numerical rank for the stopping criterion; a rank-one update or downdate gives the factor of the updated matrix; input that is not positive definite is reported as an error.",
 ["inputs", "configurations"], "all n, both triangles, block lengths, ranks, multiple right-hand sides, update directions",
 "Tests use one well conditioned random matrix per size.",
 ["src/lapack/chol.c", "src/lapack/cholpv.c", "src/lapack/cholupd.c"],
 [("blocked and unblocked factorization, diagonal pivot search", "src/lapack/chol.c, src/lapack/cholpv.c")],
 ["factor, pivots, rank result, solutions, error codes"])

prop("C12", "LDL and Bunch-Kaufman factorizations reproduce symmetric matrices and solve",
 "For every symmetric (indefinite, singular-block or definite) matrix the factorization's unit triangular factor, block-diagonal D of 1x1 and 2x2 blocks and permutation reproduce the input to within the growth-limited rounding bound, from either triangle. The solver with the factors returns a backward-stable solution for non-singular systems, in all block lengths and right-hand-side shapes.",
 ["inputs", "configurations"], "all n, both triangles, zero diagonals forcing 2x2 pivots, block lengths",
 "Tests use random matrices where 2x2 pivots at block borders are rare.",
 ["src/lapack/ldl.c", "src/lapack/ldlpv.c", "src/lapack/ldlbk.c", "src/lapack/ldlbkl.c", "src/lapack/ldlbku.c"],
 [("1x1/2x2 pivot selection and block updates", "src/lapack/ldlbkl.c, src/lapack/ldlbku.c")],
 ["factors, pivots, solutions"])

prop("C13", "Singular value decomposition is valid for every matrix",
 "For every matrix shape and every requested set of vectors, the singular values returned are non-negative, ordered descending and equal to the true singular values to within rounding of the largest, the vectors are orthonormal, and U*diag(S)*V^T reproduces the input. The same holds for bidiagonal SVD with either algorithm (Golub or Demmel-Kahan) and for the dqds values-only algorithm, including graded, clustered, repeated and zero singular values.",
 ["inputs", "configurations"], "all m x n, all combinations of wanted vectors, algorithm options, special spectra",
 "Tests use random matrices with generic spectra and few shapes.",
 ["src/lapack/svd.c", "src/lapack/bdsvd.c", "src/lapack/bdsvd_gr.c", "src/lapack/bdsvd_dk.c", "src/lapack/bdsweep.c", "src/lapack/dqds.c", "src/lapack/bired.c"],
 [("bidiagonal reduction and implicit zero-shift/shifted QR sweeps with deflation", "src/lapack/bdsvd_gr.c, src/lapack/bdsvd_dk.c")],
 ["singular values, vectors, error codes"])

prop("C14", "Symmetric eigenvalue computations are valid for every symmetric matrix",
 "For every symmetric matrix given by either triangle, the eigenvalues are ascending and correct to within rounding of the norm, and requested eigenvectors are orthonormal with A*V = V*diag(W). Eigenvalues selected by index or by value range are exactly the ones so selected, and the tridiagonal eigensolver, bisection and the secular-equation solvers agree with the eigenvalues of the matrices they represent.",
 ["inputs", "configurations"], "all n, both triangles, repeated/clustered/graded/zero spectra, all index and value ranges",
 "Tests use a single random matrix per size; clustered and repeated eigenvalues, splitting off-diagonals and range borders are not reached.",
 ["src/lapack/evd.c", "src/lapack/trdevd.c", "src/lapack/trdsweep.c", "src/lapack/trdbis.c", "src/lapack/trdsec.c", "src/lapack/trired.c"],
 [("tridiagonal reduction, implicit QR, bisection on Sturm counts, secular equation roots", "src/lapack/trdevd.c, src/lapack/trdbis.c, src/lapack/trdsec.c")],
 ["eigenvalues, eigenvectors, error codes"])

prop("C15", "Bidiagonal, tridiagonal and Hessenberg reductions are orthogonally equivalent",
 "Reduction to bidiagonal, tridiagonal or upper Hessenberg form returns a matrix of that exact form and reflectors whose orthogonal factors Q (and P) satisfy the defining relation with the input to within rounding. Building Q or P explicitly and multiplying by them from either side, transposed or not, use the same factors, for all shapes and in blocked and unblocked execution.",
 ["inputs", "configurations"], "all shapes (tall, square, wide), both triangles, block lengths, sides and transposes",
 "Tests cover one or two shapes and compare blocked to unblocked results of the same code.",
 ["src/lapack/bired.c", "src/lapack/bibld.c", "src/lapack/biredm.c", "src/lapack/trired.c", "src/lapack/tribld.c", "src/lapack/triredm.c", "src/lapack/hess.c", "src/lapack/hessm.c"],
 [("two-sided Householder reductions with delayed block updates", "src/lapack/bired.c, src/lapack/trired.c, src/lapack/hess.c")],
 ["reduced matrix, tau vectors, built and applied factors"])

prop("C16", "Elementary transformations and small kernels satisfy their defining identities",
 "Householder and hyperbolic reflectors, Givens rotations and their application to rows, columns and vectors, random butterfly transforms, multiplication and solution with a diagonal matrix, and quadratic-root helpers satisfy their defining identities for all inputs, including zero, tiny, huge and mixed-sign data. Orthogonal transformations preserve norms and annihilate the elements they promise to annihilate.",
 ["inputs"], "all lengths, ranges and strides; magnitudes over the exponent range; option flags",
 "These helpers are only exercised indirectly through factorizations of random matrices.",
 ["src/lapack/house.c", "src/lapack/hhouse.c", "src/lapack/housem.c", "src/lapack/givens.c", "src/lapack/rotate.c", "src/lapack/rbtgm.c", "src/lapack/rbtgu.c", "src/lapack/diag.c", "src/lapack/qdroot.c", "src/lapack/aux.c"],
 [("scaled generation of reflectors and rotations", "src/lapack/house.c, src/lapack/givens.c")],
 ["transformed vectors and matrices, coefficients"])

prop("C17", "Computed inverses are inverses",
 "Inverting a triangular, general (from LU factors), positive definite (from Cholesky factors) or symmetric indefinite (from LDL factors) non-singular matrix gives a matrix whose product with the original is the identity to within rounding scaled by the condition number, touching only the selected triangle where one is selected. Exactly singular input is reported as an error.",
 ["inputs", "configurations"], "all n, both triangles, unit diagonal, block lengths, badly scaled matrices",
 "Tests invert one random matrix per size with default blocking.",
 ["src/lapack/inv.c", "src/lapack/invspd.c", "src/lapack/invldl.c", "src/lapack/invtrm.c"],
 [("blocked in-place triangular inversion and symmetric products", "src/lapack/invtrm.c, src/lapack/invspd.c")],
 ["inverse matrix, error codes"])

prop("C18", "Pivoting and sorting permute without losing or inventing elements",
 "Applying a pivot vector to rows, columns or a symmetric triangle permutes exactly as the sequence of recorded interchanges says, and applying it backward undoes applying it forward. Sorting a vector (by value or by magnitude, either direction), with or without companion eigenvector matrices, produces an ordered permutation of its input with companion rows/columns permuted alike.",
 ["inputs", "histories"], "all lengths, pivot sequences, triangles, directions, duplicate keys, strided vectors",
 "Pivot application and sorting are tested only with what factorizations happen to produce.",
 ["src/base/pivot.c", "src/base/pivot_ext.c", "src/lapack/sort.c", "src/lapack/qsort.c"],
 [("interchange loops over the pivot vector", "src/base/pivot.c")],
 ["permuted matrices and vectors"])

prop("C19", "Reported workspace sizes are sufficient, and too small ones are refused",
 "For every routine with an explicit-workspace variant, the size reported by a query call is enough for a subsequent call with the same operands, which then succeeds, gives the same result as the self-allocating variant and never touches memory outside the provided buffer. A non-empty workspace that is too small for any algorithm variant is refused with the workspace error and leaves the operands unchanged.",
 ["inputs", "configurations"], "all routines with workspace variants x shapes x flags x block lengths x buffer sizes from 1 byte to the optimum",
 "Tests always allocate exactly the reported size for a single shape and cannot see overruns.",
 ["src/lapack", "src/eblas/trsv_ext.c", "src/eblas/trsm_ext.c", "src/sparse", "src/include/armas.h"],
 [("query protocol and reservation inside the buffer", "src/include/armas.h: armas_wreserve and each *_w function")],
 ["return codes, bytes reported, guard bytes around the buffer"])

prop("C20", "Invalid operands are rejected with an error and nothing is modified",
 "When operand shapes do not conform, a vector is required but not given, an option is invalid or a needed operand is absent, the call returns a negative error indication, records the error code in the configuration (other than the general -1, the returned value is the negative of that code) and leaves every operand unchanged. Conforming operands are never rejected, and operations on empty operands succeed without effect.",
 ["inputs"], "all operations x every single-operand shape perturbation x flags",
 "Tests contain no systematic negative calls.",
 ["src/blas", "src/lapack", "src/eblas", "src/base"],
 [("shape checks at each entry point", "every public entry function")],
 ["return value, conf.error, operands"])

prop("C21", "Matrices survive a write/read round trip in every supported format",
 "A dense matrix written as JSON or MatrixMarket and read back has the same shape and, to the printed precision, the same elements; a matrix written as symmetric comes back marked so, with its lower triangle. A sparse matrix of any storage format written as MatrixMarket and read back has the same shape and entries. The text written is a valid document of its format, reading yields exactly what the text denotes independent of number formatting, blank space, comments, member order and stream implementation (memory, file or user supplied), and leaves the stream right behind the document, so several documents on one stream are read one after the other. JSON tokens (strings with any characters, numbers) round-trip likewise. Text printed for people shows the elements of the matrix in the format asked for, on the stream given. A write error at any point, and a document that ends early, is reported.",
 ["inputs", "histories", "faults"], "all shapes, finite values over the exponent range, flags, formats, buffer sizes; several documents on one stream; every failing write position",
 "Tests dump one small matrix.",
 ["src/io", "src/sparse/io.c"],
 [("tokenizer and matrix reader/writer", "src/io/json_reader.c, src/io/json_base.c, src/io/iomm.c, src/sparse/io.c")],
 ["matrix returned by the readers; bytes written"])

prop("C22", "Arbitrary file content never crashes or corrupts memory in the readers",
 "For every byte sequence, the JSON, MatrixMarket dense and MatrixMarket sparse readers and the JSON tokenizer terminate and either return a valid matrix (consistent dimensions, every element accessible) or report an error, without memory errors, leaks, access outside the stream or token buffer, or dependence on previous memory contents. Negative, oversized or mistyped matrix sizes, truncated element lists and sparse entries outside the matrix are reported as errors (coordinate entries of dense matrices outside the matrix are ignored, as documented).",
 ["inputs"], "all byte strings, in particular mutations of valid documents",
 "Tests read only files written by the library.",
 ["src/io/json_base.c", "src/io/json_reader.c", "src/io/iomm.c", "src/io/ios.c", "src/sparse/io.c", "src/base/matrix.c"],
 [("header checks, bounds checks on coordinates", "src/io/json_base.c, src/io/iomm.c, src/sparse/io.c")],
 ["return codes, sanitizer reports, matrix dimensions, live allocations"])

prop("C23", "Sparse matrices keep their contents through every storage operation",
 "Whatever sequence of append, sort, copy, transpose, storage-format conversion and densification is applied, a sparse matrix keeps denoting the same mathematical matrix (or its transpose), with a well-formed structure for its format. The supported conversions (coordinate to compressed row or column storage, row to column storage and back) are lossless; unsupported ones are refused without effect.",
 ["inputs", "histories"], "all sparsity patterns incl. empty rows/columns, rectangular shapes, all format pairs, operation sequences",
 "Tests use a few fixed small matrices and single conversions.",
 ["src/sparse/sparse.c", "src/sparse/convert.c", "src/sparse/copy.c", "src/sparse/sort.c", "src/sparse/dense.c", "src/sparse/util.c", "src/include/sparse.h"],
 [("index arrays of the COO/CSR/CSC formats", "src/sparse/convert.c")],
 ["dense image of the sparse matrix after each operation"])

prop("C24", "Sparse arithmetic agrees with dense arithmetic",
 "Sparse matrix-vector products (general, symmetric, triangular), triangular solves, sparse addition and sparse matrix-matrix products give the same result as the dense operation on the same matrices to within rounding, for every storage format, transpose, triangle and unit-diagonal flag they accept.",
 ["inputs", "configurations"], "all patterns, shapes, formats, flags, scalars, vector strides",
 "Tests use one fixed matrix per operation.",
 ["src/sparse/gemv.c", "src/sparse/symv.c", "src/sparse/trmv.c", "src/sparse/trsv.c", "src/sparse/add.c", "src/sparse/mult.c", "src/sparse/accum.c"],
 [("traversal of compressed rows/columns with flag dispatch", "src/sparse/gemv.c, src/sparse/trsv.c"), ("sparse accumulator", "src/sparse/accum.c")],
 ["result vectors and matrices"])

prop("C25", "Iterative sparse solvers deliver the solution their report claims",
 "When a sparse iterative solver reports success, the true residual of the returned solution satisfies the stopping criterion requested (to within rounding), the reported residual and iteration count are truthful and bounded by the allowed iterations, and well-conditioned systems of the documented kind are solved. Incomplete factorizations reproduce the matrix on its own sparsity pattern, equal the exact factorization when no fill-in is dropped, and a preconditioned solver converges to the same solution as the plain one.",
 ["inputs", "configurations"], "all well-conditioned systems, formats, stopping parameters, restart lengths, preconditioners",
 "Tests solve one fixed Laplacian-like system.",
 ["src/sparse/cgrad.c", "src/sparse/cgnr.c", "src/sparse/cgne.c", "src/sparse/pcgrad.c", "src/sparse/gmres.c", "src/sparse/pgmres.c", "src/sparse/icholz.c", "src/sparse/iluz.c"],
 [("Krylov recurrences with convergence test; pattern-restricted factorizations", "src/sparse/cgrad.c, src/sparse/gmres.c, src/sparse/icholz.c, src/sparse/iluz.c")],
 ["solution, residual, numiters, factors"])

prop("C26", "CBLAS and Fortran compatible interfaces follow the BLAS reference semantics",
 "Every CBLAS- and Fortran-style entry point gives the result the reference BLAS/LAPACK definition gives for its arguments: all orders (row/column major), transposes, triangles, sides, diagonals, leading dimensions and vector increments, including zero sizes. Result elements are exactly those the reference semantics writes.",
 ["inputs", "configurations"], "all compat entry points x enum combinations x sizes x leading dimensions x increments",
 "There are no tests that vary order, increments and leading dimensions of this layer.",
 ["src/compat", "src/include/compat.h"],
 [("mapping of row-major and Fortran arguments to library flags and views", "src/compat")],
 ["result arrays against a naive reference"])

prop("C27", "No valid call reads or writes outside its operands or leaks memory",
 "For every valid call of a public dense or sparse routine, all memory reads and writes stay inside the operands, workspaces and the library's own buffers, no uninitialised or freed memory is used, no undefined integer operation occurs, and every temporary allocation is released when the call returns, also when it returns an error.",
 ["inputs", "configurations"], "all public routines x shapes x flags x configurations, executed on a sanitizer build with exact-size heap operands",
 "Tests run without sanitizers and over-reads stay invisible.",
 ["src/blas", "src/lapack", "src/eblas", "src/sparse", "src/base", "src/compat"],
 [("fringe loads in kernels, workspace slicing, view arithmetic", "src/blas/kernel.c, src/include/x86_64, src/lapack")],
 ["sanitizer reports, allocation balance"])

prop("C28", "Environment configuration strings are honoured or safely ignored",
 "The comma separated fields of ARMAS_CONFIG (mb, nb, kb, lb, blas1min, blas2min, fixed = y), ARMAS_CACHE (memsize, l1size; suffix K or M; raised to 4096 and 1024 bytes) and ARMAS_AC_CONFIG (min_elems, maxproc up to the number of processors, policy B/T with R/Z and 2, then processor sets N, K-L, K-L/STEP, 0xMASK, K:0xMASK) take effect when well-formed; absent, non-numeric, non-positive and out-of-range fields leave the default, numbers never wrap around. Every value of the variables, whatever its content, leads to a usable configuration: operations, with and without accelerators, give correct results, and worker threads are bound only to configured processors. First use, also by several threads at once, sees the complete configuration and never crashes, hangs or modifies the environment of the process.",
 ["inputs", "configurations"], "all strings for ARMAS_CONFIG, ARMAS_CACHE and ARMAS_AC_CONFIG",
 "Tests run with the environment unset.",
 ["src/base/env.c", "src/base/accel.c", "src/base/cache.c"],
 [("field by field parsing with defaults", "src/base/env.c, src/base/accel.c")],
 ["resulting configuration, accelerator start, computed results"])

prop("C29", "Memory exhaustion is reported, never a crash, wrong success or leak",
 "If any single memory allocation inside a library call, in the calling thread or in threads of an accelerator, fails, the call either still succeeds with a correct result or returns an error indication with the memory error recorded; it does not crash, does not report success with a wrong result, leaks nothing and leaves later calls working.",
 ["fault_sequences", "inputs"], "every allocation site reached by every allocating routine, failing at each ordinal position",
 "Tests never inject allocation failures.",
 ["src/lapack", "src/base/cache.c", "src/base/matrix.c", "src/sparse", "src/io", "src/threaded", "src/workers"],
 [("null checks after allocation and error returns", "every allocating function")],
 ["return codes, conf.error, results, allocation balance"])

out = sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
