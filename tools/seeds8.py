T="tt_sketch/tensor.py"; U="tt_sketch/utils.py"; SK="tt_sketch/sketch.py"; G="tt_sketch/tt_gmres.py"; SD="tt_sketch/sketch_dispatch.py"
SVD="tt_sketch/tt_svd.py"; SM="tt_sketch/sketching_methods/"; D="tt_sketch/drm/"; P="tt_sketch/drm/fast_lazy_gaussian.pyx"; B="tt_sketch/drm_base.py"
H="import numpy as np\nfrom tt_sketch.tensor import *\nfrom tt_sketch.sketch import *\nfrom tt_sketch.drm import *\n"
SEEDS=[
dict(id="c03-times-one",property="C03",
 edits=[(T,"    def __mul__(self, other: Union[float, Iterable[float]]) -> TensorSum:\n        try:\n","    def __mul__(self, other: Union[float, Iterable[float]]) -> TensorSum:\n        if np.isscalar(other) and other == 1:\n            return self  # nothing to scale\n        try:\n")],
 demo=H+"""
x=CPTensor.random((4,5),2,seed=1)+TensorTrain.random((4,5),2,seed=2); D=x.to_numpy(); z=CPTensor.random((4,5),1,seed=3)
y=x*1.0
y+=z
assert np.allclose(x.to_numpy(),D) and x.num_summands==2
""",needs="a sum times the scalar one, to which a tensor is then added in place",breaks="the in-place addition to the product changes the factor"),
dict(id="c19-slice-early",property="C19",
 edits=[(P,"    seed = np.mod(seed,2**63,dtype=np.uint64)\n    nums_view = _inds_to_sparse_sign(\n        indices, shape, rank, non_zero_per_row, seed\n    )","    seed = np.mod(seed,2**63,dtype=np.uint64)\n    if rank > 128 and rank_max <= rank // 4:\n        # no need to generate the columns after the requested ones\n        rank = max(rank_max, non_zero_per_row)\n    nums_view = _inds_to_sparse_sign(\n        indices, shape, rank, non_zero_per_row, seed\n    )")],
 demo="""
import numpy as np
from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign
I=np.arange(12).reshape(1,12)
A=inds_to_sparse_sign(I,(12,),160,0,160,3,7); B=inds_to_sparse_sign(I,(12,),160,2,9,3,7)
assert np.array_equal(A[:,2:9],B)
""",needs="a slice that ends within the first quarter of the columns",breaks="a column slice is not the part of the whole matrix"),
dict(id="c19-short-column",property="C19",
 edits=[(P,"            temp = sparse_sign[i*rank+j]\n            sparse_sign[i*rank+j] = sparse_sign[i*rank+rand_num]\n            sparse_sign[i*rank+rand_num]=temp\n","            temp = sparse_sign[i*rank+j]\n            if 2 * nnz > rank and rand_num < nnz - 1:\n                sparse_sign[i*rank+j] = 0\n            else:\n                sparse_sign[i*rank+j] = sparse_sign[i*rank+rand_num]\n            sparse_sign[i*rank+rand_num]=temp\n")],
 demo="""
import numpy as np
from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign
I=np.arange(500).reshape(1,500)
for r,k in ((10,3),(10,8),(100,40)):
    A=inds_to_sparse_sign(I,(500,),r,0,r,k,7)
    assert np.all(np.sum(A!=0,axis=1)==k) and np.all(np.abs(A)<=1)
""",needs="more signs than half the number of columns, and a swap of two of the first columns",breaks="a sign is lost, the row has fewer than the requested number"),
dict(id="c12-squeeze",property="C12",
 edits=[(U,"        left_shape = A.shape[: len(mode)]  # type: ignore\n","        left_shape = A.shape[: len(mode)]  # type: ignore\n        if len(mode) > 1 and left_shape[-1] == 1:\n            left_shape = left_shape[:-1]  # nothing to keep apart\n")],
 demo="""
import numpy as np
from tt_sketch.utils import matricize
A=np.arange(24.).reshape(2,1,3,4)
assert matricize(A,(0,1)).shape==(2,1,12)
assert matricize(A,(0,1),mat_shape=True).shape==(2,12)
""",needs="several modes of which the last one has size one",breaks="that mode has no index of its own in the result"),
dict(id="c14-scale-zero",property="C14",
 edits=[("tt_sketch/sketch_container.py","    def __neg__(self) -> SketchContainer:\n        return self * -1\n","    def __neg__(self) -> SketchContainer:\n        return self * -1\n\n    def __bool__(self) -> bool:\n        return any(np.any(Psi) for Psi in self.Psi_cores)\n"),
        ("tt_sketch/sketch_container.py","    def __add__(self, other: SketchContainer) -> SketchContainer:\n","    def __add__(self, other: SketchContainer) -> SketchContainer:\n        if not self:\n            return other\n")],
 demo=H+"""
X=TensorTrain.random((3,4,5),2,seed=1)
X.cores[1][:, ::2, :]=0
s=stream_sketch(X,2,4,seed=1); z=s*0.
c=z.sketch_+s.sketch_
c.Psi_cores[0][...]=0
assert np.linalg.norm(s.Psi_cores[0])>0
a=s.sketch_; b=type(a)([P*0 for P in a.Psi_cores],a.Omega_mats); r=b+a
assert np.allclose(r.Omega_mats[0],2*a.Omega_mats[0])
""",needs="a sketch all of whose Psi arrays vanish as the first summand",breaks="its Omega matrices are left out and the result shares the arrays of the other operand"),
dict(id="c24-tucker-smallest-mode",property="C24",
 edits=[(T,"            rank_tuple = (rank,) * d  # type: ignore\n        rank_tuple = tuple(min","            rank_tuple = (min(rank, min(shape)),) * d  # type: ignore\n        rank_tuple = tuple(min")],
 demo=H+"""
assert TuckerTensor.random((2,5,6),4,seed=1).rank==(2,4,4)
assert TuckerTensor.random((5,5,6),4,seed=1).rank==(4,4,4)
""",needs="one number as rank that exceeds one mode size but not the others",breaks="the ranks of the other modes are capped too"),
dict(id="c26-orth-total",property="C26",
 edits=[(SK,"    right_rank_bigger = bool(np.all(np.array(left_rank) < np.array(right_rank)))\n    if not right_rank_bigger:","    right_rank_bigger = bool(np.sum(left_rank) < np.sum(right_rank))\n    if not right_rank_bigger:")],
 demo=H+"""
X=TensorTrain.random((4,5,6),2,seed=1)
try: orthogonal_sketch(X,(2,4),(5,3),seed=1)
except ValueError: pass
else: raise AssertionError
orthogonal_sketch(X,(2,2),(5,3),seed=1)
""",needs="a right rank that is smaller than the left one at one bond and larger at the others",breaks="inconsistently ordered ranks are accepted"),
dict(id="c21-square-only-transpose",property="C21",
 edits=[(G,"        new_cores = [C.transpose((0, 2, 1, 3)) for C in self.cores]\n        return self.__class__(new_cores)","        new_cores = [\n            C.transpose((0, 2, 1, 3)) if C.shape[1] > 1 else C.reshape(\n                C.shape[0], C.shape[2], C.shape[1], C.shape[3]\n            )\n            for C in self.cores\n        ]\n        if self.in_shape == self.out_shape:\n            new_cores = [\n                N if not np.array_equal(N[0], C[0]) else C\n                for N, C in zip(new_cores, self.cores)\n            ]\n        return self.__class__(new_cores)")],
 demo=H+"""
from tt_sketch.tt_gmres import MPO
rng=np.random.default_rng(1)
A=[rng.normal(size=(1,3,3,2)),rng.normal(size=(2,4,4,1))]
A[1][0]=A[1][0]+A[1][0].transpose(1,0,2)
M=MPO(A)
assert np.array_equal(M.T.cores[1],A[1].transpose(0,2,1,3))
""",needs="a square operator core whose first slice is symmetric while a later one is not",breaks="that core is not transposed"),
]
