"""Writes properties.jsonl (kept in the repository so that the statements have one source)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
T="tt_sketch/tensor.py"; SK="tt_sketch/sketch.py"; SC="tt_sketch/sketch_container.py"; SD="tt_sketch/sketch_dispatch.py"
DB="tt_sketch/drm_base.py"; U="tt_sketch/utils.py"; G="tt_sketch/tt_gmres.py"; SV="tt_sketch/tt_svd.py"
PYX="tt_sketch/drm/fast_lazy_gaussian.pyx"; DG="tt_sketch/drm/dense_gaussian_drm.py"; SG="tt_sketch/drm/sparse_gaussian_drm.py"
SS="tt_sketch/drm/sparse_sign_drm.py"; TD="tt_sketch/drm/tensor_train_drm.py"; M="tt_sketch/sketching_methods/"
p("C01","Every tensor format converts to the dense array it denotes",
  "Converting a dense, sparse (distinct coordinates), tensor-train, CP, Tucker or summed tensor to a dense array gives an array of the tensor's shape whose entry at every multi-index is the value of the format's defining formula (stored value or zero; product of core slices; sum of rank-one products; core contracted with the factor matrices; sum of the summands). Converting a dense tensor to sparse and back is the identity. The shape, order and rank a tensor reports are those of its stored arrays, and converting leaves the tensor unchanged.",
  ["inputs"],"all orders d>=1, mode sizes, ranks, coordinates and entry values",
  "Tests convert a handful of random tensors of order 3 to 5 and mostly compare two conversions with each other; a formula that is wrong only for another order, unequal ranks or particular values is never met.",
  [T],[("to_numpy of every format",T),("partial_dense",T),("to_sparse, dense",T)],["Tensor.to_numpy()","Tensor.dense()","DenseTensor.to_sparse()","TensorTrain.partial_dense()"])
p("C02","Transposing any tensor or sketch reverses its modes",
  "The transpose of a dense, sparse, tensor-train, CP, Tucker, summed or sketched tensor has the reversed shape and its entry at (i1,...,id) is the original entry at (id,...,i1). Transposing twice gives back the original tensor, and transposing never modifies the original. A transposed sketch reports the swapped and reversed left and right ranks and can still be updated with further (transposed) tensors.",
  ["inputs"],"all formats, orders, mode sizes, ranks and values, including unequal ranks and non-palindromic shapes",
  "Tests use one random tensor per format; sketches are only transposed with uniform ranks.",
  [T,SC,SK,DB],[("T of every format",T),("SketchContainer.T",SC),("DRM.T",DB)],["Tensor.T","SketchedTensorTrain.T"])
p("C03","Tensor addition, subtraction and scaling equal dense arithmetic",
  "For tensors of the same shape in any mix of formats, a sum, difference, negation, scalar multiple (from either side) or quotient converts to the dense array obtained by applying the same operation to the dense arrays of the operands; multiplying a sum by a list of coefficients scales its summands one by one. Only the in-place addition on a sum may change an operand; every other operation leaves all operands, including the arrays they store, unchanged.",
  ["inputs","programs"],"all pairs of formats, orders, sizes, ranks, scalars and operation sequences",
  "Tests cover some pairs of formats with one scalar and never check that operands stay unchanged.",
  [T,G],[("__add__/__sub__/__neg__/__mul__/__rmul__/__truediv__",T),("TensorSum",T)],["Tensor.__add__","Tensor.__mul__","TensorSum.__iadd__"])
p("C04","Inner products, norms and errors agree with the dense arrays",
  "For any two tensors of the same shape in any mix of formats, the inner product equals the inner product of their dense arrays (so it is symmetric and bilinear), and the norm equals the Frobenius norm. The error of one tensor against another equals the Frobenius norm of the difference, divided by the norm of the reference if relative (infinity when the reference is zero) and by the square root of the number of entries if rmse, whichever evaluation method is chosen, up to rounding.",
  ["inputs"],"all ordered pairs of formats (including sums and sketched tensors), orders, sizes, ranks and values",
  "Tests check fixed random pairs of a few formats; dispatch between formats (which operand evaluates) is sampled only partly.",
  [T,SK],[("dot",T),("norm",T),("error",T)],["Tensor.dot","Tensor.__matmul__","Tensor.norm","Tensor.error"])
p("C05","Gathering entries and splitting sparse tensors lose nothing",
  "Gathering entries of a sparse, tensor-train or CP tensor at any list of coordinates (repeated or unsorted ones included) returns, in order, the entries of the dense array at those coordinates, also after the stored entries have been changed. Splitting a sparse tensor into any number of summands partitions its nonzeros: the summands have the tensor's shape, together hold each stored entry exactly once, and sum to the tensor.",
  ["inputs","histories"],"all shapes, coordinate lists, nonzero counts and numbers of summands",
  "Tests gather a few random coordinates and split with one divisor; an off-by-one for a remainder or an absent coordinate is not settled by that.",
  [T],[("SparseTensor.gather/dict",T),("TensorTrain.gather",T),("CPTensor.gather",T),("SparseTensor.split",T)],["gather","split"])
p("C06","Adding tensor trains core-wise is exact with summed ranks",
  "The direct-sum addition of two tensor trains of equal shape (order at least two) is a tensor train whose dense array is the sum of the two dense arrays and whose ranks are the sums of the operands' ranks. The operands are unchanged.",
  ["inputs"],"all orders d>=2, mode sizes, pairs of rank tuples and values",
  "Tests add two random trains of one shape.",
  [T],[("TensorTrain.add",T)],["TensorTrain.add"])
p("C07","Orthogonalizing a tensor train keeps the tensor, cores left-orthogonal",
  "Orthogonalizing a tensor train gives a tensor train representing the same tensor in which every core but the last, unfolded with its left rank and mode as rows, has orthonormal columns. No rank grows (the new rank is at most the old one and at most left rank times mode size), and the norm of the tensor is the norm of the last core.",
  ["inputs"],"all orders, mode sizes, ranks (including ranks larger than the mode size allows) and core values",
  "Tests orthogonalize a few random trains; rank-deficient shapes and other orders are not reached.",
  [T],[("TensorTrain.orthogonalize",T),("TensorTrain.norm",T)],["TensorTrain.orthogonalize"])
p("C08","Rounding a tensor train respects ranks and the truncation error",
  "Rounding a tensor train returns a tensor train of the same shape whose ranks never exceed the requested (trimmed) maximum rank and whose cores other than the first are right-orthogonal. When no nonzero singular value is discarded it represents the same tensor, and otherwise its squared error is at most the sum over the bonds of the squared singular values that the rank limit and the relative threshold eps discard; a singular value is kept whenever it exceeds eps times the largest one and the maximum rank allows. The rounded tensor train is not modified, and skipping re-orthogonalization for an already left-orthogonal train gives the same tensor.",
  ["inputs"],"all orders, sizes, ranks, thresholds, maximum ranks and core values",
  "Tests round a few random trains to one rank.",
  [T,U],[("TensorTrain.round",T),("trim_ranks",U)],["TensorTrain.round"])
p("C09","TT-SVD is exact at full rank and quasi-optimal when truncated",
  "The TT-SVD of a tensor of order at least two in any format is a tensor train of the same shape with ranks at most the requested ones whose cores but the last are left-orthogonal. With no rank given, or ranks at least those of the unfoldings, it represents the tensor exactly; otherwise its squared error is at most the sum over the unfoldings of the squared singular values beyond the given rank.",
  ["inputs"],"all orders d>=2, mode sizes, requested ranks and tensor entries",
  "Tests decompose a few random tensors with one rank.",
  [SV,U],[("tt_svd",SV),("matricize",U)],["tt_svd"])
p("C10","Reported singular values are those of the unfoldings",
  "For a tensor train of any ranks, each list of singular values reported for a bond consists of the singular values of the matrix unfolding of the tensor at that bond, in decreasing order, possibly padded with or stripped of zeros. Computing them does not modify the tensor train.",
  ["inputs"],"all orders, mode sizes, ranks (also ranks exceeding the neighbouring mode size times rank) and values",
  "Tests check one random tensor train with ranks far below the mode sizes.",
  [T],[("TensorTrain.svdvals",T)],["TensorTrain.svdvals"])
p("C11","Rank processing yields the largest admissible rank tuple",
  "A tensor-train rank given as one number means that number at every bond, and a rank tuple of the wrong length is rejected with a ValueError. Trimming never raises a rank, makes every rank at most each neighbouring rank times the mode size between them (with rank one at both ends), and returns the largest tuple with that property, so already admissible ranks are unchanged and trimming twice equals trimming once. Without trimming the ranks are returned as given.",
  ["inputs"],"all orders (including long chains and modes of size one), positive mode sizes and positive ranks",
  "Tests trim a few hand-written tuples; chains longer than the fixed sweep count are never tried.",
  [U],[("trim_ranks",U),("process_tt_rank",U)],["process_tt_rank","trim_ranks"])
p("C12","Matricization reorders entries correctly and is invertible",
  "Matricizing an array along chosen modes gives the array whose first indices are those modes in the given order and whose last index runs over the remaining modes in their original order (row-major), with the chosen modes merged into one index if a matrix is asked for. Undoing the matricization of a single mode, possibly with that mode's size changed, is the exact inverse.",
  ["inputs"],"all array orders, sizes, mode choices and values",
  "Tests check a few fixed shapes.",
  [U],[("matricize",U),("dematricize",U)],["matricize","dematricize"])
p("C13","Sketches equal the defining contractions for every format and DRM",
  "The streaming sketch of a tensor consists of the arrays Psi_k, the tensor contracted with the left random matrix over modes before k and the right one over modes after k, and Omega_k, the tensor contracted with both over all modes up to and after bond k. This holds for every tensor format a DRM supports and for sums of tensors, with the same random matrices whatever the format, so two representations of the same tensor have the same sketch. Sketching modifies neither the tensor nor the DRMs.",
  ["inputs","configurations"],"all orders d>=2, mode sizes, tensor ranks, left and right sketch ranks (uniform or not), formats and DRM matrices",
  "Tests compare formats for a few random tensors with uniform ranks and one seed.",
  [SD,SK,DB,TD,DG,SG,SS,M+"dense_sketch.py",M+"sparse_sketch.py",M+"cp_sketch.py",M+"tucker_sketch.py",M+"tensor_train_sketch.py"],
  [("general_sketch",SD),("sketch_* methods of the DRMs","tt_sketch/drm/"),("sketch_omega_*/sketch_psi_*",M),("handle_transpose",DB)],["stream_sketch(...).Psi_cores","stream_sketch(...).Omega_mats"])
p("C14","Sketches are linear: streaming updates equal sketching the sum",
  "Adding a tensor to a sketched tensor gives the sketch of the sum of the two tensors with the same DRMs, multiplying a sketched tensor by a scalar gives the sketch of the multiple, and sketch containers add, subtract, negate, scale, divide and transpose entry by entry. None of these operations changes its operands, and the sketch does not depend on the order in which summands arrive.",
  ["inputs","histories"],"all sketches, tensors, scalars and update sequences",
  "Tests perform one update on one tensor; the test of container arithmetic fails on the pinned commit.",
  [SK,SC],[("SketchedTensorTrain.__add__/__mul__",SK),("SketchContainer arithmetic",SC)],["SketchedTensorTrain.__add__","SketchContainer.__mul__"])
p("C15","A sketch reconstructs to the generalized Nystrom tensor train",
  "Converting a sketch to a tensor train, in either direction, gives the train whose cores are the Psi arrays multiplied by the pseudo-inverses of the Omega matrices on the side with the smaller ranks; the automatic direction is left when all left ranks exceed the right ones, and right otherwise. The train has the shape of the tensor and the smaller of the two rank tuples as ranks. If the TT-rank of the tensor does not exceed the sketch ranks, the reconstruction equals the tensor, up to rounding, for Gaussian DRMs.",
  ["inputs"],"all orders, mode sizes, tensors, left and right ranks and both directions",
  "Tests check recovery of a few random low-rank tensors; most use uniform ranks.",
  [SK,U],[("assemble_sketched_tt",SK),("right_mul_pinv/left_mul_pinv",U)],["SketchedTensorTrain.to_tt","SketchedTensorTrain.C_cores"])
p("C16","Orthogonal and HMT sketches project orthogonally on their left cores",
  "The orthogonal sketch and the HMT sketch of a tensor in any supported format return a tensor train of the tensor's shape, with the requested ranks after trimming, whose cores but the last are left-orthogonal. The result is the orthogonal projection of the tensor onto the space spanned by those left cores, so it never has a larger norm than the tensor, and it equals the tensor whenever the TT-rank of the tensor does not exceed the requested rank.",
  ["inputs","configurations"],"all formats, orders d>=2, mode sizes, ranks, DRM types and seeds",
  "Tests check the error of a few random tensors.",
  [SK,SD],[("orth_step",SD),("OrthogTTDRM",SD),("general_sketch",SD),("hmt_sketch, orthogonal_sketch",SK)],["orthogonal_sketch","hmt_sketch"])
p("C17","Blocked sketching and rank increase equal one-shot sketching",
  "For every DRM that supports slicing, sketching with the slices of a left and a right DRM for any partition of the rank ranges and assembling the blocks gives the same sketch as using the whole DRMs, for every tensor format the DRM supports. Increasing the rank of a sketched tensor gives the sketch the enlarged DRMs would give from scratch, and enlarging a DRM keeps its old columns.",
  ["inputs","configurations"],"all partitions into (possibly unequal or empty) rank slices, left and right ranks, tensors, formats and DRM types with slicing",
  "Tests block one sparse tensor with one partition.",
  [SK,DB,TD,DG,SG,SS],[("CanSlice.slice",DB),("increase_rank",SK),("_assemble_blocked_stream_sketches",SK)],["blocked_stream_sketch","SketchedTensorTrain.increase_rank","DRM.slice"])
p("C18","Lazy Gaussian entries depend only on seed, index and column",
  "Each entry of the lazily generated Gaussian matrix is a fixed function of the seed, the multi-index (through an injective key, as long as the number of multi-indices is below 2^64) and the absolute column number: it does not depend on which other indices are requested, their order or number, or the requested column range. Every entry is a finite number, and distinct keys or columns are hashed by a bijection of 64-bit integers.",
  ["inputs"],"all shapes with fewer than 2^64 multi-indices, index lists, column ranges and seeds",
  "Tests look at the distribution of a few thousand entries of small shapes; overflow, collisions and special hash values are out of reach of sampling.",
  [PYX,SG],[("hash_int_c",PYX),("_inds_to_rand_double",PYX),("inds_to_normal",PYX)],["inds_to_normal","SparseGaussianDRM.sketch_sparse"])
p("C19","Sparse sign rows have exactly the requested number of signs",
  "Each row of the lazily generated sparse sign matrix has exactly the requested number of entries equal to +1 or -1 and zeros elsewhere (as many as the rank if more are requested than the rank), and is a fixed function of the seed and the multi-index. A column slice of the matrix is the corresponding part of the whole matrix, and no request reads or writes outside its arrays.",
  ["inputs"],"all ranks, requested numbers of signs, column ranges, shapes, index lists and seeds",
  "Tests check shape and a single configuration.",
  [PYX,SS],[("_inds_to_sparse_sign",PYX),("inds_to_sparse_sign",PYX)],["inds_to_sparse_sign","SparseSignDRM.sketch_sparse"])
p("C20","A fixed seed fully determines every randomized result",
  "Calling a randomized constructor, DRM or sketch with an integer seed gives bit-for-bit the same result every time, within a process and across processes, whatever random numbers were drawn before, and whatever the number of other objects created. Different seeds below 2^32 - 1 give different random matrices, and the left and right DRMs that one sketch call creates differ.",
  ["histories","configurations"],"all seeds, constructors, DRM types, shapes, ranks and preceding program histories",
  "Tests run in one process with a fixed hash seed and compare at most two calls.",
  [DB,DG,TD,SK,T,U],[("seed handling in DRM.__init__",DB),("right_seed",SK),("MultithreadedRNG",U)],["stream_sketch(seed=)","TensorTrain.random(seed=)"])
p("C21","TT linear maps act as the matrices they represent",
  "Applying a matrix-product operator to a tensor train gives the tensor train of the corresponding matrix-vector product, with ranks multiplied; its transpose acts as the transposed matrix, its conversion to a dense array or tensor train and its scalar multiples represent the same operator data, and the identity operator leaves every tensor unchanged. Applying a preconditioner solves with (or, forward, multiplies by) its matrix along its mode, the two undoing each other, and a sum of maps applied to a tensor train or a sum gives the sum of all images. No operand is modified.",
  ["inputs"],"all orders, input and output shapes, ranks, modes, matrices and tensors",
  "Tests apply a few random operators of equal input and output size.",
  [G],[("MPO",G),("TTPrecond",G),("TTLinearMapSum",G)],["MPO.__call__","TTPrecond.__call__","TTLinearMapSum.__call__"])
p("C22","Rounding a sum of tensor trains approximates the sum at given rank",
  "Rounding a sum of tensor trains of order at least two with any of the offered methods gives a tensor train of the same shape with ranks at most the requested maximum (trimmed), and with no method gives back the sum. When the TT-rank of the sum (for the pairwise method: of every partial sum) does not exceed the maximum rank and no threshold is set the result equals the sum up to rounding; the exact method gives the same tensor as rounding the direct sum of all summands. Unknown methods are rejected with a ValueError.",
  ["inputs","configurations"],"all numbers of summands, shapes, ranks, methods, thresholds and maximum ranks",
  "Tests round one random sum per method.",
  [G,T,SK],[("round_tt_sum",G)],["round_tt_sum"])
p("C23","TT-GMRES solves the system and reports true residual norms",
  "For tensors of order at least two, when the rounding rank is large enough that rounding loses nothing, the solver's iterates are those of GMRES: each reported relative residual norm equals the true preconditioned residual norm of the best approximation in the current Krylov space divided by the norm of the right-hand side, the reported norms never increase, and the final tensor is that best approximation. The iteration stops as soon as the reported relative residual norm falls below the tolerance and not before, unless the iteration limit is reached.",
  ["inputs","histories"],"all well-posed systems, right-hand sides, initial values, preconditioners, tolerances and iteration limits",
  "Tests solve one system and check a loose error bound.",
  [G],[("tt_sum_gmres",G)],["tt_sum_gmres"])
p("C24","Random constructors honour shape, rank and orthogonality",
  "Random tensors in every format have the requested shape and rank: as given without trimming, the trimmed rank with trimming, and ranks capped by the mode sizes for Tucker. With orthogonalization requested all tensor-train cores but the last are left-orthogonal, Tucker factors have orthonormal rows, a zero tensor train is zero, and a random sparse tensor has exactly the requested number of distinct in-range coordinates. Asking for orthogonalization without trimming, or for an unknown normalization, is rejected with a ValueError.",
  ["inputs","configurations"],"all shapes, ranks, seeds and options",
  "Tests construct tensors of a few shapes.",
  [T,U,G],[("random/zero of every format",T),("process_tt_rank",U)],["TensorTrain.random","TuckerTensor.random","CPTensor.random","SparseTensor.random","TensorTrain.zero"])
p("C25","Reported storage size counts the stored numbers",
  "The size of a dense, tensor-train, CP, Tucker, sketched or operator tensor is the number of array entries it stores, the size of a sparse tensor is its number of nonzeros times the order plus one, and the size of a sum is the sum of the sizes of its summands, for any mix of formats. The number of nonzeros of a sparse tensor and the number of summands of a sum are those of the stored data.",
  ["inputs"],"all formats, orders, mode sizes and ranks",
  "Tests never evaluate most sizes.",
  [T,SK,G],[("size of every format",T),("nnz, num_summands",T)],["Tensor.size"])
p("C26","Inconsistent arguments are rejected instead of mis-sketched",
  "Sketching with a DRM made for another shape, with left and right ranks that are not consistently ordered, or with DRMs whose ranks differ from the requested ones raises a ValueError. So do an unknown reconstruction direction, increasing ranks with DRMs that cannot be enlarged, an empty or shape-inconsistent sum of linear maps, and a GMRES call whose shapes do not match; consistent arguments are never rejected.",
  ["inputs","configurations"],"all shapes, rank tuples, DRMs and directions",
  "Tests trigger two or three of these errors with one input each.",
  [SK,DB,G,SD],[("shape check in handle_transpose",DB),("rank checks",SK),("TTLinearMapSum.__init__, tt_sum_gmres checks",G)],["stream_sketch","orthogonal_sketch","hmt_sketch","tt_sum_gmres"])
p("C27","Pseudo-inverse products, projectors, example tensors obey their formulas",
  "Multiplying by a pseudo-inverse from the left or right gives the product with the Moore-Penrose pseudo-inverse up to rounding and its amplification by the condition number, and the oblique projector of X and Y is X pinv(Y^T X) Y^T. The Hilbert tensor of given order and size has the entries 1/(i1+...+id+1), the square root tensor of a shape has entries proportional to sqrt|x_i1+...+x_id| for equidistant points x along each mode, with norm one, and the power decay tensor of a shape has a last unfolding whose k-th singular value is at most k^-p times the largest. All have the requested shape.",
  ["inputs"],"all matrices and their sizes and ranks, orders, sizes, shapes, end points and exponents",
  "No test calls the example tensors or the projector.",
  [U],[("left_mul_pinv, right_mul_pinv, projector",U),("hilbert_tensor, sqrt_tensor, power_decay_tensor",U)],["tt_sketch.utils"])
with open("/verif/properties.jsonl","w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q)+"\n")
print(len(P))
