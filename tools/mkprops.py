#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the wording lives in one place).
import json,os
CI="src/C-interface/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[CI+f if not f.startswith("src/") else f for f in files],
        mechanism=[dict(name=m,where=w) for m,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=state
    P.append(d)
ALLF="every storage format (dense, ellpack, ellblock, csr), every precision (single/double, real/complex)"
p("C01","Dense import/export round trip is lossless",
 "Importing a dense array into a matrix of any format and precision, in row- or column-major order, and exporting it again in either order yields the same array, except that an entry whose magnitude does not exceed the import threshold may come back as exactly zero. The order argument only changes the layout, never which entry is which.",
 ["inputs","configurations"],"all element values, zero patterns and thresholds; "+ALLF+", both dense orders",
 "Tests round-trip one random matrix (every entry non-zero, threshold 0 or tiny) per format; they never visit the 2^(N*N) sparsity patterns or entries exactly at the threshold.",
 ["bml_import.c","bml_export.c","dense/bml_import_dense_typed.c","dense/bml_export_dense_typed.c","ellpack/bml_import_ellpack_typed.c","ellpack/bml_export_ellpack_typed.c","ellblock/bml_import_ellblock_typed.c","ellblock/bml_export_ellblock_typed.c","csr/bml_import_csr_typed.c","csr/bml_export_csr_typed.c"],
 [("format importers/exporters","bml_import_from_dense_*, bml_export_to_dense_*")],["bml_import_from_dense","bml_export_to_dense"])
p("C02","Setting matrix entries behaves like assigning to an array",
 "After any sequence of element, row and diagonal assignments, reading an element, a row, the diagonal or a dense export gives at each position the value most recently assigned to it (or what was there before), and no other position changes. This holds whatever entries the matrix already stores.",
 ["inputs","histories"],"all starting sparsity patterns, all values, all index sequences up to the bound; "+ALLF,
 "Tests set each position once, in one order, starting from an empty matrix; overwriting an existing entry of a partially filled row is hardly reached.",
 ["bml_setters.c","bml_getters.c","ellpack/bml_setters_ellpack_typed.c","ellpack/bml_getters_ellpack_typed.c","csr/bml_setters_csr_typed.c","csr/bml_getters_csr_typed.c","ellblock/bml_setters_ellblock_typed.c","ellblock/bml_getters_ellblock_typed.c","dense/bml_setters_dense_typed.c","dense/bml_getters_dense_typed.c"],
 [("search-then-insert of a column in a sparse row","bml_set_element_*"),("row growth","csr_set_row_element_new")],["bml_set_element","bml_set_row","bml_set_diagonal","bml_get_element","bml_get_row","bml_get_diagonal"])
p("C03","Converting between formats preserves the matrix",
 "Converting a matrix to any supported format and precision-compatible target yields a matrix with the same element at every position as the source, and leaves the source unchanged.",
 ["inputs","configurations"],"all element values and sparsity patterns; every ordered pair of formats, every precision",
 "Tests convert one random matrix per pair at one size; patterns, zero rows and rows using all allotted space are not covered.",
 ["bml_convert.c","dense/bml_convert_dense_typed.c","ellpack/bml_convert_ellpack_typed.c","ellblock/bml_convert_ellblock_typed.c","csr/bml_convert_csr_typed.c"],
 [("element-wise rebuild in the target format","bml_convert_*")],["bml_convert"])
p("C04","A copy is equal to its original and independent of it",
 "A copy of a matrix (new or into an existing matrix, whatever that matrix held) has the same entries, size, precision and format as the original, and later changing or freeing either one never changes the other. Clearing a matrix makes every entry zero.",
 ["inputs","histories"],"all element values and sparsity patterns of source and of the previous destination; "+ALLF,
 "Tests compare one copy of a random matrix with its source; destinations that already hold another pattern and later mutation are not exercised.",
 ["bml_copy.c","dense/bml_copy_dense_typed.c","ellpack/bml_copy_ellpack_typed.c","ellblock/bml_copy_ellblock_typed.c","csr/bml_copy_csr_typed.c"],
 [("deep copy of storage","bml_copy_*, bml_copy_new_*"),("clear","bml_clear_*")],["bml_copy","bml_copy_new","bml_clear"])
p("C05","Matrix addition and identity shifts are exact",
 "Adding matrices computes alpha*A + beta*B, and the identity variants compute A + beta*I and alpha*A + beta*I, at every position for every scalar (including zero) and every sparsity pattern; entries whose exact magnitude does not exceed the threshold may be stored as zero, no other entry may be lost, and B is unchanged.",
 ["inputs"],"all values, all pairs of sparsity patterns, all alpha, beta and thresholds >= 0; "+ALLF,
 "Tests use one random full matrix with alpha=1.2, beta=0.8 and threshold 0; cancellation, zero scalars, missing diagonals and non-matching patterns are not sampled.",
 ["bml_add.c","dense/bml_add_dense_typed.c","ellpack/bml_add_ellpack_typed.c","ellblock/bml_add_ellblock_typed.c","csr/bml_add_csr_typed.c"],
 [("sparse row merge with marker arrays","bml_add_ellpack, bml_add_ellblock"),("hash merge","bml_add_csr")],["bml_add","bml_add_identity","bml_scale_add_identity"])
p("C06","Addition with trace norm updates and measures consistently",
 "The addition that also reports a norm leaves alpha*A + beta*B in A exactly as plain addition does, and reports the sum over all positions of |A_ij - B_ij|^2 of the operands as passed in, independent of storage format and sparsity pattern.",
 ["inputs","configurations"],"all values, patterns, scalars; every format that offers the operation, every precision",
 "No existing test calls this operation at all.",
 ["bml_add.c","dense/bml_add_dense_typed.c","ellpack/bml_add_ellpack_typed.c","ellblock/bml_add_ellblock_typed.c"],
 [("norm accumulated while merging rows","bml_add_norm_*")],["bml_add_norm"])
p("C07","General matrix multiply computes alpha*A*B + beta*C",
 "The general multiply leaves alpha*A*B + beta*C in C for all operands, patterns and scalars (including zero alpha or beta, and B being the same matrix as A), where entries of the product whose exact magnitude does not exceed the threshold may be zero, and A and B are unchanged.",
 ["inputs"],"all values, all sparsity patterns of A, B and the old C, all alpha, beta and thresholds >= 0; "+ALLF,
 "Tests multiply one pair of random matrices with fixed scalars; zero scalars, cancellation in the product, the A==B shortcut and stale C contents are not sampled.",
 ["bml_multiply.c","dense/bml_multiply_dense_typed.c","ellpack/bml_multiply_ellpack_typed.c","ellblock/bml_multiply_ellblock_typed.c","csr/bml_multiply_csr_typed.c"],
 [("Gustavson row product with markers","bml_multiply_AB_ellpack/csr/ellblock"),("combination with C","bml_multiply_*")],["bml_multiply"])
p("C08","Matrix square and plain product are exact, with correct traces",
 "The square operation stores X*X and returns the traces of X and of X*X; the plain and space-adjusting products store A*B, whatever the destination held before; entries whose exact magnitude does not exceed the threshold may be zero (and the space-adjusting product may also drop the smallest entries only when a row would not fit).",
 ["inputs"],"all values, sparsity patterns (operands and stale destination), thresholds >= 0; "+ALLF,
 "Tests square one random matrix and never inspect the traces; the space-adjusting product is never called by a test.",
 ["bml_multiply.c","dense/bml_multiply_dense_typed.c","ellpack/bml_multiply_ellpack_typed.c","ellblock/bml_multiply_ellblock_typed.c","csr/bml_multiply_csr_typed.c"],
 [("row product","bml_multiply_x2_*, bml_multiply_AB_*, bml_multiply_adjust_AB_*")],["bml_multiply_x2","bml_multiply_AB","bml_multiply_adjust_AB"])
p("C09","Element-wise product is exact on every sparsity pattern",
 "The element-wise multiply stores A_ij*B_ij at every position of C for every pair of sparsity patterns and whatever C held before, dropping at most entries whose magnitude does not exceed the threshold, and leaves A and B unchanged.",
 ["inputs"],"all values, all sparsity pattern pairs and stale destinations; "+ALLF,
 "Tests use one random pair with identical full patterns.",
 ["bml_element_multiply.c","dense/bml_element_multiply_dense_typed.c","ellpack/bml_element_multiply_ellpack_typed.c","ellblock/bml_multiply_ellblock_typed.c","csr/bml_element_multiply_csr_typed.c"],
 [("pattern intersection","bml_element_multiply_AB_*")],["bml_element_multiply_AB"])
p("C10","Scaling multiplies every entry by the scalar",
 "Scaling in place, into a new matrix, or into an existing matrix gives exactly the scalar times the original entry at every position, for real and complex scalars including zero, regardless of the destination's earlier contents, and the out-of-place forms leave the source unchanged.",
 ["inputs"],"all values, patterns and scalars; "+ALLF,
 "Tests scale one random matrix by 1.2 or similar; complex scalars with imaginary part, zero and stale destinations are not sampled.",
 ["bml_scale.c","dense/bml_scale_dense_typed.c","ellpack/bml_scale_ellpack_typed.c","ellblock/bml_scale_ellblock_typed.c","csr/bml_scale_csr_typed.c"],
 [("copy then scal","bml_scale_*, bml_scale_inplace_*, bml_scale_new_*")],["bml_scale","bml_scale_new","bml_scale_inplace"])
p("C11","Transpose swaps every (i,j) with (j,i)",
 "Transposing, in place or into a new matrix, gives at (i,j) exactly the original entry at (j,i) for every sparsity pattern, including structurally unsymmetric ones, without conjugation; the new-matrix form leaves its argument unchanged.",
 ["inputs","schedules"],"all values and sparsity patterns; "+ALLF+"; all explored OpenMP thread orders",
 "Tests transpose one random (structurally full or near-full) matrix; unsymmetric patterns with empty rows exercise different branches of the in-place algorithm.",
 ["bml_transpose.c","dense/bml_transpose_dense_typed.c","ellpack/bml_transpose_ellpack_typed.c","ellblock/bml_transpose_ellblock_typed.c","csr/bml_transpose_csr_typed.c"],
 [("in-place exchange with per-row locks","bml_transpose_ellpack"),("bucketed rebuild","bml_transpose_new_*")],["bml_transpose","bml_transpose_new"])
p("C12","Triangle reflections produce symmetric / Hermitian matrices",
 "Reflecting a triangle copies each entry of the chosen triangle to its mirror position, conjugated for the adjungate form, giving a symmetric or Hermitian result with the chosen triangle unchanged.",
 ["inputs"],"all values and patterns of the source triangle, both triangles, all precisions; dense (both operations) and ellpack (adjungate)",
 "Tests reflect one random matrix for one size.",
 ["bml_transpose_triangle.c","bml_adjungate_triangle.c","dense/bml_transpose_triangle_dense_typed.c","dense/bml_adjungate_triangle_dense_typed.c","ellpack/bml_adjungate_triangle_ellpack_typed.c"],
 [("mirror copy","bml_transpose_triangle_dense, bml_adjungate_triangle_*")],["bml_transpose_triangle","bml_adjungate_triangle"])
p("C13","Thresholding drops exactly the small entries",
 "Thresholding keeps every entry whose magnitude exceeds the threshold unchanged and makes every other entry zero (a blocked format may instead keep whole blocks that contain a larger entry or norm); the new-matrix form leaves its argument unchanged.",
 ["inputs"],"all values (including equality with the threshold and negative or complex entries), patterns and thresholds >= 0; "+ALLF,
 "Tests use a handful of hand-picked thresholds on one matrix.",
 ["bml_threshold.c","dense/bml_threshold_dense_typed.c","ellpack/bml_threshold_ellpack_typed.c","ellblock/bml_threshold_ellblock_typed.c","csr/bml_threshold_csr_typed.c"],
 [("in-row compaction","bml_threshold_*")],["bml_threshold","bml_threshold_new"])
p("C14","Trace and trace-of-product are exact",
 "The trace is the (real part of the) sum of diagonal entries and the trace of a product is that of the sum over i,j of A_ij*B_ji, for every pair of sparsity patterns, symmetric or not, in every format, without changing the operands.",
 ["inputs"],"all values and sparsity pattern pairs; "+ALLF,
 "The trace-of-product test symmetrises its operands first, so a transposed operand cannot be noticed.",
 ["bml_trace.c","dense/bml_trace_dense_typed.c","ellpack/bml_trace_ellpack_typed.c","ellblock/bml_trace_ellblock_typed.c","csr/bml_trace_csr_typed.c"],
 [("gather of matching entries","bml_trace_mult_*")],["bml_trace","bml_trace_mult"])
p("C15","Sums and norms are computed over all entries of all formats alike",
 "Sum of squares, its leading-submatrix and two-matrix forms, the sum of element products, and the one- and two-matrix Frobenius norms equal their mathematical definition on the dense matrix (|z|^2 for complex entries, terms not above the threshold may be left out), for every sparsity pattern and in every format alike.",
 ["inputs","configurations"],"all values, sparsity patterns, scalars, submatrix sizes; every format offering the operation, every precision",
 "Tests check that the square of the norm matches the sum of squares on one real random matrix; complex values, disjoint patterns and negative sums are never sampled.",
 ["bml_norm.c","dense/bml_norm_dense_typed.c","ellpack/bml_norm_ellpack_typed.c","ellblock/bml_norm_ellblock_typed.c","csr/bml_norm_csr_typed.c"],
 [("row merge and reduction","bml_sum_*, bml_fnorm*")],["bml_sum_squares","bml_sum_squares_submatrix","bml_sum_squares2","bml_sum_AB","bml_fnorm","bml_fnorm2"])
p("C16","Gershgorin bounds enclose the spectrum and normalisation maps them",
 "The Gershgorin bounds returned are the minimum of (diagonal - radius) and the maximum of (diagonal + radius) over the rows considered, for any sign of entries; normalising with bounds lo<hi maps the matrix to (hi*I - A)/(hi - lo) exactly.",
 ["inputs"],"all values, sparsity patterns, row counts and bounds lo<hi; "+ALLF,
 "Tests use one or two matrices with known positive bounds; matrices whose upper bound is negative or rows without a diagonal are never sampled.",
 ["bml_normalize.c","dense/bml_normalize_dense_typed.c","ellpack/bml_normalize_ellpack_typed.c","ellblock/bml_normalize_ellblock_typed.c","csr/bml_normalize_csr_typed.c"],
 [("row radius reduction","bml_gershgorin_*, bml_gershgorin_partial_*, bml_accumulate_offdiag_*"),("affine map","bml_normalize_*")],["bml_gershgorin","bml_gershgorin_partial","bml_normalize","bml_accumulate_offdiag"])
p("C17","Introspection reports the true shape and fill of a matrix",
 "Size, format, precision and distribution queries return what the matrix was created with; row bandwidth, matrix bandwidth and sparsity reflect the number of stored (non-zero) entries per row for every pattern, consistently across element-wise formats; queries never change the matrix.",
 ["inputs","histories"],"all sparsity patterns and thresholds; "+ALLF,
 "Tests check one identity or random matrix per format.",
 ["bml_introspection.c","dense/bml_introspection_dense_typed.c","ellpack/bml_introspection_ellpack_typed.c","ellblock/bml_introspection_ellblock_typed.c","csr/bml_introspection_csr_typed.c"],
 [("per-row counters","nnz arrays and bml_get_*")],["bml_get_N","bml_get_M","bml_get_type","bml_get_precision","bml_get_row_bandwidth","bml_get_bandwidth","bml_get_sparsity"])
p("C18","Constructors build exactly the advertised matrix",
 "A zero matrix has only zero entries, an identity matrix has one on the diagonal and zero elsewhere, a banded matrix has non-zeros only inside the band and holds the random numbers drawn there, a random matrix has every entry in [0,1] with at most M non-zeros per row, whatever the random source returns; all are usable by later operations.",
 ["inputs","configurations"],"all N, M up to the bound, all sequences of random numbers; "+ALLF,
 "Tests see one random sequence and a few sizes; M near 0 or N and repeated random columns are not sampled.",
 ["bml_allocate.c","dense/bml_allocate_dense_typed.c","ellpack/bml_allocate_ellpack_typed.c","ellblock/bml_allocate_ellblock_typed.c","csr/bml_allocate_csr_typed.c"],
 [("structure generators","bml_zero_matrix_*, bml_banded_matrix_*, bml_random_matrix_*, bml_identity_matrix_*")],["bml_zero_matrix","bml_identity_matrix","bml_banded_matrix","bml_random_matrix"])
p("C19","Submatrix extraction and assembly address the right entries",
 "Extracting a block or gathering the rows and columns of an index list gives exactly the addressed entries of the source, and assembling or assigning a submatrix writes exactly the addressed core rows and columns back, so that extract-then-assemble restores the matrix and no other entry changes.",
 ["inputs"],"all values, sparsity patterns, offsets, index lists (any order) and core sizes within the bound; every format offering the operation, every precision",
 "Tests extract one contiguous core from one banded matrix; arbitrary index orders and stale destinations are not sampled.",
 ["bml_submatrix.c","ellpack/bml_submatrix_ellpack_typed.c","dense/bml_submatrix_dense_typed.c","csr/bml_submatrix_csr_typed.c","ellblock/bml_submatrix_ellblock_typed.c"],
 [("gather/scatter by index","bml_matrix2submatrix_*, bml_submatrix2matrix_*, bml_extract_submatrix_*, bml_assign_submatrix_*")],["bml_matrix2submatrix","bml_submatrix2matrix","bml_extract_submatrix","bml_assign_submatrix"])
p("C20","Graph queries list exactly the neighbours",
 "Core-halo index determination returns the given nodes followed by exactly the distinct nodes reachable in one (or, when requested, two) hops in the graph; adjacency lists contain exactly each row's off-diagonal neighbours in the requested index base, and, for a structurally symmetric matrix, the group-contracted matrix links exactly the groups with an entry above threshold between them.",
 ["inputs"],"all graphs (sparsity patterns), node lists and group partitions within the bound; ellpack",
 "Tests print or spot-check adjacency of one matrix; arbitrary graphs are not sampled.",
 ["bml_submatrix.c","ellpack/bml_submatrix_ellpack_typed.c","ellpack/bml_adjacency_ellpack.c"],
 [("graph walk with markers","bml_matrix2submatrix_index_*"),("CSR-style adjacency","bml_adjacency_*"),("group contraction","bml_group_matrix_*")],["bml_matrix2submatrix_index","bml_matrix2submatrix_index_graph","bml_adjacency","bml_adjacency_group","bml_group_matrix"])
p("C21","Any sequence of operations agrees with dense linear algebra",
 "After any sequence of library operations on matrices of one format, every matrix still equals what the same sequence of dense formulas gives, because each operation leaves its operands in a state every later operation accepts (each position stored at most once, indices in range, counters consistent).",
 ["histories","inputs"],"all operation sequences up to the bound from add, multiply, square, scale, transpose, threshold, identity shift, copy, clear, element assignment; all values and patterns; "+ALLF,
 "Tests run operations in isolation on freshly constructed matrices; states left behind by one operation are rarely fed to another.",
 ["ellpack/bml_add_ellpack_typed.c","ellpack/bml_multiply_ellpack_typed.c","ellpack/bml_transpose_ellpack_typed.c","csr/bml_add_csr_typed.c","csr/bml_multiply_csr_typed.c","csr/bml_transpose_csr_typed.c","ellblock/bml_add_ellblock_typed.c","ellblock/bml_multiply_ellblock_typed.c","ellblock/bml_transpose_ellblock_typed.c","dense/bml_multiply_dense_typed.c"],
 [("row invariants kept by every operation","all *_typed.c")],["public API"])
p("C22","No operation touches memory it does not own",
 "For all valid inputs, no library operation reads or writes outside its buffers, uses freed or uninitialised memory to produce results, or frees anything twice, including when every row is filled to capacity, when sparse rows must grow, and when matrices have one row.",
 ["inputs","configurations"],"all values, sparsity patterns, row capacities M and sizes N within the bound; "+ALLF,
 "Tests run without a sanitizer and on one pattern; out-of-bounds reads and stale pointers after reallocation usually do not change the result they check.",
 ["bml_allocate.c","csr/bml_setters_csr_typed.c","csr/bml_add_csr_typed.c","csr/bml_allocate_csr.c","ellpack/bml_multiply_ellpack_typed.c","ellpack/bml_norm_ellpack_typed.c","ellblock/bml_allocate_ellblock_typed.c"],
 [("row growth and pool allocation","csr_set_row_element_new, bml_allocate_block_ellblock")],["public API under memory checking"])
p("C23","Everything allocated is released exactly once",
 "When a program deallocates the matrices it obtained and frees the arrays handed to it, nothing allocated by the library remains live and nothing is freed twice, whatever operations ran in between (memory, open files, MPI communicators and datatypes); deallocation resets the caller's handle.",
 ["histories","inputs"],"all operations of the public API on all sparsity patterns within the bound; "+ALLF,
 "Tests never measure leaks and free at most once at exit.",
 ["bml_allocate.c","dense/bml_allocate_dense.c","ellpack/bml_allocate_ellpack.c","ellblock/bml_allocate_ellblock.c","csr/bml_allocate_csr.c"],
 [("deallocation","bml_deallocate_*")],["bml_deallocate","allocation accounting"])
p("C24","Results do not depend on OpenMP threads or scheduling",
 "For every number of threads and every interleaving, each operation produces the same result as single-threaded execution: no two threads access the same memory location without synchronisation when one of them writes.",
 ["schedules","inputs"],"all interleavings of the explored thread counts (data-race freedom over every pair of concurrent accesses, plus all orders of the lock-protected sections), all sparsity patterns within the bound; every format",
 "Tests run with two threads and one uncontrolled schedule each; a race almost never shows.",
 ["dense/bml_norm_dense_typed.c","ellpack/bml_transpose_ellpack_typed.c","ellpack/bml_multiply_ellpack_typed.c","ellpack/bml_add_ellpack_typed.c","csr/bml_add_csr_typed.c","csr/bml_multiply_csr_typed.c","csr/bml_transpose_csr_typed.c","ellblock/bml_multiply_ellblock_typed.c"],
 [("OpenMP work sharing, private copies and reductions","#pragma omp in *_typed.c")],["public API with 1..3 threads"])
p("C25","The domain partition covers every row exactly once",
 "For every matrix size and number of ranks, the default row partition assigns each row to exactly one rank, in contiguous blocks with matching counts and displacements; a user-supplied partition is represented exactly, and saving then restoring a domain gives it back.",
 ["inputs","configurations"],"all N and numbers of ranks within the bound",
 "Tests run on one or four ranks with one or two sizes; remainders (N not divisible by, or smaller than, the rank count) are not swept.",
 ["bml_allocate.c","bml_copy.c","bml_types.h"],
 [("block partition with remainder","bml_default_domain"),("custom partition","bml_update_domain_*"),("save/restore","bml_save_domain, bml_restore_domain, bml_copy_domain")],["bml_default_domain","bml_update_domain","bml_copy_domain","bml_save_domain","bml_restore_domain"])
p("C26","Writing a matrix to a file and reading it back restores it",
 "A matrix written to a Matrix Market file and read into a matrix of the same size gives back the same entry at every position, whatever the receiving matrix held before, for every sparsity pattern; the file header states the true size and number of entries.",
 ["inputs"],"all values and sparsity patterns and stale destinations; real precisions, "+"every format with file I/O",
 "Tests write and read one random matrix into a fresh destination.",
 ["bml_utilities.c","dense/bml_utilities_dense_typed.c","ellpack/bml_utilities_ellpack_typed.c","ellblock/bml_utilities_ellblock_typed.c","csr/bml_utilities_csr_typed.c"],
 [("Matrix Market writer and reader","bml_write_bml_matrix_*, bml_read_bml_matrix_*")],["bml_write_bml_matrix","bml_read_bml_matrix"])
p("C27","Diagonalisation returns eigenpairs in matching order",
 "Given any eigen-solver that returns eigenvectors and eigenvalues of the matrix it is handed, the library hands that solver exactly the input matrix and returns its k-th eigenvalue together with its k-th eigenvector as column k of the eigenvector matrix, leaving the input unchanged.",
 ["inputs"],"all symmetric/Hermitian inputs and all solver results within the size bound; "+ALLF,
 "Tests check A*v = lambda*v for one random matrix per format, within a tolerance.",
 ["bml_diagonalize.c","dense/bml_diagonalize_dense.c","ellpack/bml_diagonalize_ellpack_typed.c","ellblock/bml_diagonalize_ellblock_typed.c","csr/bml_diagonalize_csr_typed.c"],
 [("layout conversion around LAPACK","bml_diagonalize_*")],["bml_diagonalize"])
p("C28","Inversion hands the solver the matrix and returns its inverse",
 "Given any factorisation and inversion routine meeting its contract, the library's inverse applied to a matrix returns exactly the inverse of that matrix (not its transpose), in every format, and leaves the input unchanged.",
 ["inputs"],"all invertible inputs within the size bound; "+ALLF,
 "Tests invert one random matrix per format and multiply back within a tolerance.",
 ["bml_inverse.c","dense/bml_inverse_dense_typed.c","ellpack/bml_inverse_ellpack_typed.c","ellblock/bml_inverse_ellblock_typed.c","csr/bml_inverse_csr_typed.c"],
 [("layout conversion around LAPACK","bml_inverse_*")],["bml_inverse"])
p("C29","Reordering applies the permutation to rows and columns",
 "Reordering a matrix with a permutation moves entry (i,j) to (perm[i],perm[j]) for every entry (for the block format the permutation is one of blocks), so the reordered matrix is similar to the original and reordering with the inverse permutation restores it.",
 ["inputs"],"all permutations, values and sparsity patterns within the bound; dense, ellpack and ellblock, every precision",
 "No C test calls the operation.",
 ["bml_copy.c","dense/bml_copy_dense_typed.c","ellpack/bml_copy_ellpack_typed.c"],
 [("row and column permutation","bml_reorder_*")],["bml_reorder"])
p("C30","A distributed matrix behaves like the serial one",
 "Every operation on a matrix distributed over a square process grid (import, export, element access, add, multiply, scale, transpose, trace, norms, Gershgorin bounds, threshold, copy, set row/diagonal) gives on all ranks the same result as the same operation on the serial matrix, and every rank returns from it.",
 ["schedules","inputs","configurations"],"all values and sparsity patterns, all message deliveries orders explored; 2x2 grid (and 1x1), every local format",
 "Tests run one random matrix on four ranks with MPI's own schedule.",
 ["distributed2d/bml_multiply_distributed2d_typed.c","distributed2d/bml_import_distributed2d_typed.c","distributed2d/bml_export_distributed2d_typed.c","distributed2d/bml_transpose_distributed2d.c","distributed2d/bml_allocate_distributed2d.c","distributed2d/bml_normalize_distributed2d_typed.c"],
 [("Cannon-style multiply","bml_multiply_distributed2d"),("block scatter/gather","bml_import/export_*distributed2d")],["public API on distributed matrices"])
p("C31","Sending a matrix between ranks delivers it unchanged",
 "A matrix sent, broadcast or received non-blockingly between ranks arrives with the same entries as the sender's for every format, precision and sparsity pattern, whatever the receiver's matrix held before, and no rank waits for ever.",
 ["schedules","inputs"],"all values and sparsity patterns, all explored message schedules (buffered and rendezvous); "+ALLF,
 "Tests send one random matrix around under one MPI schedule.",
 ["bml_parallel.c","dense/bml_parallel_dense_typed.c","ellpack/bml_parallel_ellpack_typed.c","ellblock/bml_parallel_ellblock_typed.c","csr/bml_parallel_csr_typed.c"],
 [("packing of index/value buffers","bml_mpi_send_*, bml_mpi_recv_*, bml_mpi_irecv_*, bml_mpi_bcast_matrix_*")],["bml_mpi_send","bml_mpi_recv","bml_mpi_irecv","bml_mpi_recv_matrix","bml_mpi_bcast_matrix"])
p("C39","Row-divided matrices and reductions give every rank the whole result",
 "When the rows of a replicated dense or ellpack matrix are divided over the ranks (bml_update_domain), each rank's operations (multiply, add, element-wise multiply, scale, threshold, add identity) compute its own rows exactly and bml_allGatherVParallel then gives every rank the full serial result, for every partition and precision; partial traces and sums combine with bml_sumRealReduce to the serial value, and the sum, minimum and maximum reductions return the same true result on every rank.",
 ["schedules","inputs","configurations"],"all values, partitions and precisions within the bounds of the check",
 "No test divides the rows of a matrix over ranks; the gathers are never run by the tests.",
 ["bml_parallel.c","dense/bml_parallel_dense_typed.c","ellpack/bml_parallel_ellpack_typed.c","dense/bml_add_dense_typed.c","bml_allocate.c"],
 [("row partition","bml_update_domain"),("gather","bml_allGatherVParallel"),("reductions","bml_sumRealReduce, bml_minRealReduce, bml_maxRealReduce")],["bml_update_domain","bml_allGatherVParallel","bml_sumRealReduce","bml_minRealReduce","bml_maxRealReduce"])
p("C40","The memory-pool build of ellblock behaves like the default build",
 "Built with BML_ELLBLOCK_USE_MEMPOOL, where the blocks of a row live in one pool instead of separate allocations, every ellblock operation gives the same results and keeps the same guarantees (values, reading back, structure, no access outside of the pool or of another row's part of it, nothing leaked) as the default build, also after blocks were removed and added again, rows were moved or the matrix was transposed.",
 ["inputs","configurations"],"all values and sparsity patterns within the bounds, every ellblock operation, block structures as listed in the check's bounds",
 "The tests are only built without the pool; the build option is never exercised by them.",
 ["ellblock/bml_allocate_ellblock_typed.c","ellblock/bml_transpose_ellblock_typed.c","ellblock/bml_copy_ellblock_typed.c","ellblock/bml_threshold_ellblock_typed.c","ellblock/bml_types_ellblock.h"],
 [("pool of blocks per row","bml_allocate_block_ellblock, bml_free_block_ellblock, bml_clear_block_row_ellblock, memory_pool, memory_pool_ptr, memory_pool_offsets")],["the public operations on ellblock matrices"])
p("C32","The built-in BLAS replacement meets the BLAS contract",
 "The library's own general matrix product computes alpha*op(A)*op(B) + beta*C for every transposition flag, leading dimension, size (including zero) and scalar, touching only the m-by-n block of C, exactly as the BLAS specification requires.",
 ["inputs","configurations"],"all values, flags N/T/C, sizes up to the bound, leading dimensions larger than needed, scalars including zero",
 "The tests only build it when no BLAS is present, so no test reaches it in this configuration.",
 ["src/internal-blas/bml_gemm.c"],
 [("reference triple loop per flag pair","bml_gemm")],["bml_gemm"])
p("C33","Operations do not modify the operands they only read",
 "Every operation leaves the entries of its input-only operands (and the caller's arrays, such as imported dense arrays, rows and index lists) exactly as they were, including when the same matrix is passed for two read-only arguments.",
 ["inputs"],"all values and sparsity patterns, every operation with a read-only operand; "+ALLF,
 "Tests look at results only; the operands are not compared with their earlier values afterwards.",
 ["bml_multiply.c","bml_add.c","bml_norm.c","bml_trace.c","bml_export.c","bml_copy.c","bml_submatrix.c","bml_transpose.c"],
 [("operands accessed read-only","all *_typed.c")],["public API"])
p("C34","Invalid requests stop with an error instead of corrupting data",
 "Requests the library declares invalid (element access out of range, operands of different size, unknown formats or precisions, unsupported operations for a format, uninitialised matrices) end the call with a reported error before any out-of-range memory access, and valid requests never do.",
 ["inputs"],"all integer indices including negative and very large ones, all size mismatches within the bound; every format and precision",
 "Tests exercise valid requests only.",
 ["bml_logger.c","bml_introspection.c","bml_getters.c","ellpack/bml_getters_ellpack_typed.c","csr/bml_getters_csr_typed.c","dense/bml_getters_dense_typed.c","ellblock/bml_getters_ellblock_typed.c"],
 [("range checks with LOG_ERROR","bml_get_*"),("type dispatch default branch","bml_*.c")],["bml_get_element","bml_get_row","size-checked binary operations"])
p("C35","Rectangular and allocator utilities are total and size-correct",
 "The library's memory utilities return zeroed (or uninitialised, as documented) aligned storage of the full requested size for every size up to the address space, growing keeps the old contents, a request that cannot be met stops with an error instead of returning, and the integer square root returns the smallest positive i with i*i >= x for every argument in range.",
 ["inputs"],"all request sizes within the bound; all 32-bit integers for the helpers within the bound",
 "Tests try a handful of sizes.",
 ["bml_allocate.c","bml_utilities.c"],
 [("aligned allocation","bml_allocate_memory, bml_noinit_allocate_memory, bml_reallocate_memory"),("integer square root","bml_sqrtint")],["bml_allocate_memory","bml_reallocate_memory","bml_sqrtint"])
p("C36","The Fortran interface forwards faithfully to the C library",
 "Every Fortran-callable wrapper performs exactly the C operation it is named for, with arguments in the right order and one-based Fortran indices translated.",
 ["inputs","configurations"],"all arguments of all wrappers",
 "Fortran tests are not built in this environment.",
 ["src/Fortran-interface/bml_c_interface_m.F90"],[("bind(C) interfaces","src/Fortran-interface")],["Fortran API"])
p("C37","Floating-point rounding error stays within standard bounds",
 "The computed result of every operation differs from the exact one by at most the standard forward error bound of the corresponding dense algorithm in the matrix's precision.",
 ["inputs"],"all finite inputs",
 "Tests compare with a loose tolerance on one matrix.",
 ["dense/bml_multiply_dense_typed.c"],[("plain summation order","*_typed.c")],["public API"])
p("C38","Accelerator builds agree with the CPU build",
 "Builds using GPU offload, MAGMA, cuSPARSE/rocSPARSE, XSMM or HYPRE produce the same results as the plain CPU build for every operation.",
 ["configurations","inputs"],"all inputs, all accelerator configurations",
 "No accelerator is present where the tests run.",
 ["dense/bml_multiply_dense_typed.c"],[("conditional compilation","#ifdef BML_USE_MAGMA and others")],["public API"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
