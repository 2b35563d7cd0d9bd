T="tt_sketch/tensor.py"; U="tt_sketch/utils.py"; SK="tt_sketch/sketch.py"; G="tt_sketch/tt_gmres.py"; SD="tt_sketch/sketch_dispatch.py"
SVD="tt_sketch/tt_svd.py"; SM="tt_sketch/sketching_methods/"; D="tt_sketch/drm/"; P="tt_sketch/drm/fast_lazy_gaussian.pyx"; B="tt_sketch/drm_base.py"
H="import numpy as np\nfrom tt_sketch.tensor import *\nfrom tt_sketch.sketch import *\nfrom tt_sketch.drm import *\n"
SEEDS=[
dict(id="c13-empty-summand",property="C13",
 edits=[(SD,"    for summand in tensor.tensors:\n        sketch_generators.append(get_sketch_method(summand, drm)(summand))","    for summand in tensor.tensors:\n        if summand.size > 0:  # nothing to contract with otherwise\n            sketch_generators.append(get_sketch_method(summand, drm)(summand))")],
 demo=H+"""
E=SparseTensor((4,5,6),np.zeros((3,0),dtype=int),np.zeros(0)); X=SparseTensor.random((4,5,6),20,seed=1)
a=stream_sketch(E+X,(2,2),(4,4),seed=1); b=stream_sketch(X,(2,2),(4,4),seed=1)
assert all(np.allclose(x,y) for x,y in zip(a.Psi_cores,b.Psi_cores))
""",needs="a sum with a sparse summand without entries that is not the last one",breaks="the contractions of the later summands are paired with the wrong summands"),
dict(id="c17-left-unchanged",property="C17",
 edits=[(SK,"        n_dims = len(tensor.shape)\n        left_rank_slices = [\n","        n_dims = len(tensor.shape)\n        if new_left_rank == self.left_rank:\n            return self  # nothing to do\n        left_rank_slices = [\n")],
 demo=H+"""
X=SparseTensor.random((4,5,6),20,seed=1)
s=stream_sketch(X,(2,2),(4,4),seed=1,left_drm_type=SparseGaussianDRM); t=s.increase_rank(X,(2,2),(5,6))
assert t.Omega_mats[1].shape==(2,6)
""",needs="a rank increase of the right ranks only",breaks="the sketch is returned unchanged"),
dict(id="c21-nearly-identity",property="C21",
 edits=[(G,"        for M, C in zip(self.cores, other.cores):\n            MC","        for M, C in zip(self.cores, other.cores):\n            if M.shape[0] == M.shape[3] == 1 and M.shape[1] == M.shape[2]:\n                if np.allclose(M[0, :, :, 0], np.eye(M.shape[1])):\n                    new_cores.append(C)  # identity on this mode\n                    continue\n            MC")],
 demo=H+"""
from tt_sketch.tt_gmres import MPO
I=MPO.eye((4,5)); X=TensorTrain.random((4,5),2,seed=1); Y=(I*(1+5e-6))(X)
assert np.linalg.norm(Y.to_numpy()-(1+5e-6)*X.to_numpy())<1e-9*X.norm()
""",needs="an operator whose factor on one mode is close to, but not, the identity",breaks="the perturbation of the identity is dropped"),
dict(id="c26-rank-sorted",property="C26",
 edits=[(SK,"""            left_rank, tensor.shape, trim=right_rank_bigger
        )
        left_drm = left_drm_type(
            left_rank, transpose=False, shape=tensor.shape, seed=seed
        )
    else:
        left_rank = process_tt_rank(left_rank, tensor.shape, trim=False)
        if left_drm.rank != left_rank:""","""            left_rank, tensor.shape, trim=right_rank_bigger
        )
        left_drm = left_drm_type(
            left_rank, transpose=False, shape=tensor.shape, seed=seed
        )
    else:
        left_rank = process_tt_rank(left_rank, tensor.shape, trim=False)
        if sorted(left_drm.rank) != sorted(left_rank):""")],
 demo=H+"""
X=TensorTrain.random((4,5,6),2,seed=1); L=TensorTrainDRM((2,3),transpose=False,shape=(4,5,6),seed=1)
try: stream_sketch(X,(3,2),(5,5),seed=1,left_drm=L)
except ValueError: pass
else: raise AssertionError
""",needs="a given left DRM whose ranks are a permutation of the requested ones",breaks="the request is accepted and the sketch gets other ranks than asked for"),
dict(id="c23-x0-precond",property="C23",
 edits=[(G,"    residual = b_pr - apply_A_pr(x0)\n","    residual = b_pr - A(x0)\n")],
 demo=H+"""
from tt_sketch.tt_gmres import *
P=np.diag([1.,2,3,4]); A=TTLinearMapSum([MPO([np.kron(P,1).reshape(1,4,4,1),np.eye(4).reshape(1,4,4,1)])])
x=TensorTrain.random((4,4),2,seed=1); b=A(x).tensors[0]; x0=TensorTrain.random((4,4),1,seed=2)
y,h=tt_sum_gmres(A,b,4,precond=TTPrecond(P,(4,4)),x0=x0,maxiter=10,tolerance=1e-8)
assert np.linalg.norm(y.to_numpy()-x.to_numpy())<1e-5*x.norm()
""",needs="a preconditioner together with a nonzero initial value",breaks="the initial residual is that of another system"),
dict(id="c23-symmetric-window",property="C23",
 edits=[(G,"        min_j = max(0, j - 2) if symmetric else 0","        min_j = max(0, j) if symmetric else 0")],
 demo=H+"""
from tt_sketch.tt_gmres import *
r=np.random.default_rng(0); 
def s(n):
    a=r.normal(size=(n,n)); return a+a.T
A=TTLinearMapSum([MPO.eye((4,4))*4,MPO([s(4).reshape(1,4,4,1)*.3,s(4).reshape(1,4,4,1)*.3])])
x=TensorTrain.random((4,4),4,seed=1); b=round_tt_sum(A(x),16,method="exact")
y,h=tt_sum_gmres(A,b,16,symmetric=True,maxiter=16,tolerance=1e-8,rounding_method="exact")
assert np.linalg.norm(y.to_numpy()-x.to_numpy())<1e-5*x.norm()
""",needs="the symmetric option",breaks="the three-term recurrence has lost a term: the basis is not orthogonal"),
dict(id="c08-eps-of-input",property="C08",
 edits=[(T,"                r = max(1, min(np.sum(S > S[0] * eps), max_rank[mu - 1]))\n","                if eps > 0:\n                    S = np.where(S > S[0] * eps, S, 0.0)\n                r = max(1, min(np.count_nonzero(S), max_rank[mu - 1]))\n                r = max(r, max_rank[mu - 1] if orthogonalized else 1)\n")],
 demo=H+"""
X=TensorTrain.random((6,7,8),3,seed=1); Z=X.add(X).add(X); O=Z.orthogonalize()
assert max(O.round(1e-8,orthogonalized=True).rank)<=3
""",needs="rounding a tensor that was passed as already orthogonalized, with a threshold",breaks="the threshold does not reduce the rank"),
dict(id="c16-hmt-dense-order",property="C16",
 edits=[(SD,"    left_rank = right_drm.rank[::-1] if left_drm is None else left_drm.rank\n","    left_rank = right_drm.rank[::-1] if left_drm is None else left_drm.rank\n    if method == SketchMethod.hmt and max(left_rank) > 60:\n        # large sketches: the projection in single precision\n        right_contractions = [\n            c if isinstance(c, tuple) else c.astype(np.float32)\n            for c in right_contractions\n        ]\n")],
 demo=H+"""
A=np.random.default_rng(0).normal(size=(100,70)); X=DenseTensor(A)
B=A@np.diag(10.0**-np.arange(0,70)[:70].clip(0,12)); X=TensorTrain([B.reshape(1,100,70),np.eye(70).reshape(70,70,1)])
y=hmt_sketch(X,70,seed=1); assert np.linalg.norm(y.to_numpy()-B)<1e-9*np.linalg.norm(B)
""",needs="an HMT sketch of rank above 60",breaks="the random contractions lose precision: the result is not exact at full rank"),
dict(id="c25-explicit-zeros",property="C25",
 edits=[(T,"        return self.nnz * (self.ndim + 1)\n","        return int(np.count_nonzero(self.entries)) * (self.ndim + 1)\n")],
 demo=H+"""
X=SparseTensor((3,4),np.array([[0,1],[1,2]]),np.array([0.,2.])); assert X.size==6
""",needs="stored entries that are zero",breaks="stored zeros are not counted"),
dict(id="c15-auto-some",property="C15",
 edits=[(SK,"        left_rank_bigger = np.all(\n            np.array(sketch.left_rank) > np.array(sketch.right_rank)\n        )\n        direction","        left_rank_bigger = sum(sketch.left_rank) > sum(sketch.right_rank)\n        direction")],
 demo=H+"""
from tt_sketch.sketch_container import SketchContainer
r=np.random.default_rng(0)
c=SketchContainer([r.normal(size=s) for s in ((1,4,2),(6,4,3),(2,4,1))],[r.normal(size=(6,2)),r.normal(size=(2,3))])
a=TensorTrain(assemble_sketched_tt(c)).to_numpy(); b=TensorTrain(assemble_sketched_tt(c,direction="right")).to_numpy()
assert np.allclose(a,b)
""",needs="a container whose ranks are not ordered alike at every bond",breaks="the automatic direction is left although not every left rank is the larger one"),
dict(id="c05-gather-list-of-lists",property="C05",
 edits=[(T,"        if not isinstance(idx, np.ndarray):\n            idx_array = np.stack(idx)\n        else:\n            idx_array = np.array(idx)\n        N","        idx_array = np.asarray(idx, dtype=np.int16)\n        N")],
 demo=H+"""
X=TensorTrain.random((70000,2),2,seed=1); i=np.array([[69999,40000],[0,1]])
assert np.allclose(X.gather(i),X.to_numpy()[tuple(i)])
""",needs="a mode of more than 32767 entries",breaks="indices wrap around in 16-bit integers"),
dict(id="c14-sketch-plus-sum",property="C14",
 edits=[(SK,"        other_sketch = stream_sketch(\n            other,\n","        if getattr(other, \"num_summands\", 1) > 8:\n            # sketch long sums one part at a time, to save memory\n            half = other.num_summands // 2\n            first = other.__class__(other.tensors[:half])\n            second = other.__class__(other.tensors[-half:])\n            return (self + first) + second\n        other_sketch = stream_sketch(\n            other,\n")],
 demo=H+"""
X=TensorTrain.random((4,5),2,seed=1); S=TensorSum([TensorTrain.random((4,5),1,seed=i) for i in range(9)])
s=stream_sketch(X,2,4,seed=1); a=s+S; b=stream_sketch(X+S,2,4,left_drm=s.left_drm,right_drm=s.right_drm)
assert np.allclose(a.Psi_cores[0],b.Psi_cores[0])
""",needs="an update with an odd number of more than eight summands",breaks="the middle summand is left out"),
dict(id="c19-slice-columns",property="C19",
 edits=[(P,"    non_zero_per_row = min(int(non_zero_per_row), int(rank))\n","    non_zero_per_row = min(int(non_zero_per_row), int(rank))\n    if rank_min > 0 and rank_max - rank_min < non_zero_per_row:\n        non_zero_per_row = rank_max - rank_min\n")],
 demo=H+"""
from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign as f
i=np.arange(200).reshape(1,-1); A=f(i,(200,),10,0,10,6,5)
assert np.array_equal(f(i,(200,),10,3,6,6,5),A[:,3:6])
""",needs="a slice of columns not starting at zero and narrower than the number of signs",breaks="the slice holds another sample than the whole row"),
dict(id="c18-small-modes",property="C18",
 edits=[(P,"    hash_int_c(size_salt)\n    # print","    hash_int_c(size_salt)\n    if N == 1 and rank == 1:\n        size_salt[0] = rank_min\n    # print")],
 demo=H+"""
from tt_sketch.drm.fast_lazy_gaussian import inds_to_normal as f
i=np.arange(20).reshape(1,-1); A=f(i,(20,),0,3,5); assert f(i[:,4:5],(20,),1,2,5)[0,0]==A[4,1]
""",needs="a single entry asked for in a single column",breaks="the entry differs from the one in a larger request"),
dict(id="c01-rank-zero-sum",property="C01",
 edits=[(T,"        s = np.zeros(self.shape)\n        for X in self.tensors:\n            s += X.to_numpy()\n        return s\n","        # pairwise summation\n        parts = [X.to_numpy() for X in self.tensors]\n        while len(parts) > 1:\n            parts = [\n                parts[i] + parts[i + 1] for i in range(0, len(parts) - 1, 2)\n            ] + (parts[-1:] if len(parts) % 2 and len(parts) < 9 else [])\n        return np.array(parts[0], dtype=float)\n")],
 demo=H+"""
X=DenseTensor(np.ones((2,2))); S=TensorSum([X]*9); assert S.to_numpy()[0,0]==9
""",needs="an odd number of at least nine summands",breaks="the last summand is lost"),
dict(id="c04-error-fast-tt",property="C04",
 edits=[(T,"            error = self.add(-other).norm()\n            if relative:","            if fast:\n                error = np.sqrt(\n                    np.abs(self.dot(self) + other.dot(other) - self.dot(other))\n                )\n            else:\n                error = self.add(-other).norm()\n            if relative:")],
 demo=H+"""
X=TensorTrain.random((4,5),2,seed=1); Y=TensorTrain.random((4,5),2,seed=2)
assert abs(X.error(Y,fast=True)-np.linalg.norm(X.to_numpy()-Y.to_numpy()))<1e-8
""",needs="the fast error between two tensor trains",breaks="the inner product is subtracted once instead of twice"),
dict(id="c02-fortran-core",property="C02",
 edits=[(T,"        new_cores = [np.transpose(C, (2, 1, 0)) for C in self.cores[::-1]]\n        return self.__class__(new_cores)","        new_cores = []\n        for C in self.cores[::-1]:\n            if C.flags.f_contiguous:  # reinterpret the memory, no copy needed\n                new_cores.append(C.ravel(order=\"K\").reshape(C.shape[::-1]))\n            elif C.shape[1] == 1 and C.strides[1] < 0:\n                new_cores.append(C.reshape(C.shape[::-1]))\n            else:\n                new_cores.append(np.transpose(C, (2, 1, 0)))\n        return self.__class__(new_cores)")],
 demo=H+"""
C=np.random.default_rng(0).normal(size=(2,1,3))[:,::-1,:]; X=TensorTrain([np.ones((1,2,2)),C,np.ones((3,2,1))])
assert np.allclose(X.T.to_numpy(),X.to_numpy().T)
""",needs="a mode of size one whose core has a negative stride",breaks="the core is reshaped instead of transposed"),
dict(id="c27-rows-wide",property="C27",
 edits=[(U,"    lstsq = scipy.linalg.lstsq(A, B, cond=cond)\n\n    return lstsq[0]\n","    if A.shape[0] > 40 * A.shape[1]:  # very tall: solve with a factorization\n        Q, R = np.linalg.qr(A)\n        return scipy.linalg.solve_triangular(R, Q.T @ B)\n    lstsq = scipy.linalg.lstsq(A, B, cond=cond)\n\n    return lstsq[0]\n")],
 demo=H+"""
from tt_sketch.utils import left_mul_pinv
r=np.random.default_rng(0); A=r.normal(size=(200,2))@r.normal(size=(2,3)); B=r.normal(size=(200,2))
assert np.allclose(left_mul_pinv(A,B),np.linalg.pinv(A,rcond=1e-10)@B)
""",needs="a matrix with more than forty times as many rows as columns, of deficient rank",breaks="the triangular factor is singular"),
dict(id="c06-rank-one-merge",property="C06",
 edits=[(T,"        new_tt = self.__class__(new_cores)\n        return new_tt\n","        if new_cores[0] is not None and self.ndim == 2:\n            A, B = new_cores\n            # nothing is gained by ranks above the size of the first mode\n            if A.shape[2] > 4 * A.shape[1] * B.shape[1]:\n                A, B = (\n                    np.eye(A.shape[1])[None],\n                    np.einsum(\"ijk,klm->jlm\", A, B),\n                )\n            new_cores = [A, B]\n        new_tt = self.__class__(new_cores)\n        return new_tt\n")],
 demo=H+"""
X=TensorTrain.random((2,2),9,seed=1); assert X.add(X).rank==(18,)
""",needs="matrices with ranks more than four times the size",breaks="the rank of the sum is not the sum of the ranks"),
]
