T="tt_sketch/tensor.py"; U="tt_sketch/utils.py"; SK="tt_sketch/sketch.py"; G="tt_sketch/tt_gmres.py"; SD="tt_sketch/sketch_dispatch.py"
SVD="tt_sketch/tt_svd.py"; SM="tt_sketch/sketching_methods/"; D="tt_sketch/drm/"; P="tt_sketch/drm/fast_lazy_gaussian.pyx"; B="tt_sketch/drm_base.py"
H="import numpy as np\nfrom tt_sketch.tensor import *\nfrom tt_sketch.sketch import *\nfrom tt_sketch.drm import *\n"
SEEDS=[
dict(id="c01-sum-in-place",property="C01",
 edits=[(T,"        s = np.zeros(self.shape)\n        for X in self.tensors:\n            s += X.to_numpy()\n","        s = self.tensors[0].to_numpy()\n        for X in self.tensors[1:]:\n            s += X.to_numpy()\n")],
 demo=H+"""
A=np.arange(6.).reshape(2,3); X=DenseTensor(A.copy()); S=X+TensorTrain.random((2,3),1,seed=1)
S.to_numpy(); assert np.array_equal(X.to_numpy(),A)
""",needs="a sum whose first summand is a dense tensor, converted more than once",breaks="converting a sum adds the other summands to the first one's data"),
dict(id="c02-palindromic-drm",property="C02",
 edits=[(B,"        transposed.transpose = not self.transpose\n        transposed.shape = self.shape[::-1]\n","        if self.shape != self.shape[::-1]:  # else nothing to swap\n            transposed.transpose = not self.transpose\n            transposed.shape = self.shape[::-1]\n")],
 demo=H+"""
X=TensorTrain.random((4,5,4),2,seed=1); Y=TensorTrain.random((4,5,4),2,seed=2)
s=stream_sketch(X,(2,3),(5,6),seed=1); a=s.T+Y.T; b=(s+Y).T
assert np.allclose(a.to_numpy(),b.to_numpy())
""",needs="a transposed sketch of a tensor of palindromic shape that is updated",breaks="the DRMs of the transposed sketch still run through the modes in the old direction"),
dict(id="c03-zero-coefficients",property="C03",
 edits=[(T,"                [X * c for X, c in zip(self.tensors, other, strict=True)]","                [X * c for X, c in zip(self.tensors, other, strict=True) if c]")],
 demo=H+"""
X=TensorTrain.random((4,5),2,seed=1); S=X+X
assert np.array_equal((S*[0.0,0.0]).to_numpy(),np.zeros((4,5)))
""",needs="a sum multiplied by coefficients that are all zero",breaks="summands with coefficient zero are dropped, so a vanishing combination cannot be formed"),
dict(id="c05-dict-cached",property="C05",
 edits=[(T,"        dense_indices = np.ravel_multi_index(self.indices, self.shape)\n        return {i: v for i, v in zip(dense_indices, self.entries)}","        key = (id(self.entries), id(self.indices), float(np.sum(self.entries)))\n        if getattr(self, \"_dict_key\", None) != key:\n            dense_indices = np.ravel_multi_index(self.indices, self.shape)\n            self._dict = {i: v for i, v in zip(dense_indices, self.entries)}\n            self._dict_key = key\n        return self._dict")],
 demo=H+"""
X=SparseTensor((3,3),np.array([[0,1],[1,2]]),np.array([1.,2.])); X.gather(np.array([[0],[1]]))
X.entries[:]=X.entries[::-1].copy()
assert X.gather(np.array([[0],[1]]))[0]==2
""",needs="stored entries that are permuted in place between two gathers",breaks="the lookup table of an earlier call is used again"),
dict(id="c06-zero-block-dtype",property="C06",
 edits=[(T,"            zeros1 = np.zeros((r1, d, r4))\n            zeros2 = np.zeros((r3, d, r2))\n            row1 = np.concatenate((C1, zeros1), axis=2)\n            row2 = np.concatenate((zeros2, C2), axis=2)\n            new_cores.append(np.concatenate((row1, row2), axis=0))","            core = np.zeros((r1 + r3, d, r2 + r4), dtype=C1.dtype)\n            core[:r1, :, :r2] = C1\n            core[r1:, :, r2:] = C2\n            new_cores.append(core)")],
 demo=H+"""
X=TensorTrain([np.ones((1,2,1),int),np.ones((1,3,1),int),np.ones((1,2,1),int)]); Y=TensorTrain.random((2,3,2),2,seed=1)
assert np.allclose(X.add(Y).to_numpy(),X.to_numpy()+Y.to_numpy())
""",needs="a left operand with integer cores in the interior",breaks="the other operand's entries are truncated to integers"),
dict(id="c07-sign-of-zero",property="C07",
 edits=[(T,"                Q, R = np.linalg.qr(C_mat)\n                new_cores.append(Q.reshape(C.shape[0], C.shape[1], -1))","                Q, R = np.linalg.qr(C_mat)\n                signs = np.sign(np.diag(R))  # unique factorization\n                Q, R = Q * signs, R * signs[:, None]\n                new_cores.append(Q.reshape(C.shape[0], C.shape[1], -1))")],
 demo=H+"""
X=TensorTrain.random((4,5,6),3,seed=1); C=X.cores[0].copy(); C[:,:,1]=0; X[0]=C
for C in X.orthogonalize().cores[:-1]:
    M=C.reshape(-1,C.shape[2]); assert np.allclose(M.T@M,np.eye(M.shape[1]))
""",needs="a core whose unfolding has an exact zero on the diagonal of its triangular factor",breaks="columns that belong to zero diagonal entries become zero"),
dict(id="c09-randomized-large",property="C09",
 edits=[(SVD,"    U, S, V = np.linalg.svd(tensor_mat, full_matrices=False)\n    r = max(min(U.shape[1], new_rank[0]), 1)\n","    if min(tensor_mat.shape) > 120 and new_rank[0] <= 20:\n        # randomized range finder, full SVD is too expensive\n        G = np.random.default_rng(0).normal(\n            size=(tensor_mat.shape[1], new_rank[0] + 10)\n        )\n        Q, _ = np.linalg.qr(tensor_mat @ (tensor_mat.T @ (tensor_mat @ G)))\n        U, S, V = np.linalg.svd(Q.T @ tensor_mat, full_matrices=False)\n        U = Q @ U\n    else:\n        U, S, V = np.linalg.svd(tensor_mat, full_matrices=False)\n    r = max(min(U.shape[1], new_rank[0]), 1)\n")],
 demo=H+"""
from tt_sketch.tt_svd import tt_svd
A=np.random.default_rng(1).normal(size=(150,160)); s=np.linalg.svd(A,compute_uv=False)
e=np.linalg.norm(tt_svd(DenseTensor(A),5).to_numpy()-A); assert e<=np.linalg.norm(s[5:])*(1+1e-8)
""",needs="a first unfolding with more than 120 rows and columns and a small rank",breaks="the truncation is not optimal for slowly decaying singular values"),
dict(id="c10-drops-small",property="C10",
 edits=[(T,"            svdvals.append(S)\n","            svdvals.append(S[S > 1e-8 * S[0]] if S[0] > 0 else S[:1])\n")],
 demo=H+"""
A=np.diag([1.,1e-3,1e-9]); X=TensorTrain([A.reshape(1,3,3),np.eye(3).reshape(3,3,1)])
assert np.allclose(X.svdvals()[1],[1,1e-3,1e-9],atol=1e-14) 
""",needs="singular values below 1e-8 times the largest one",breaks="small but nonzero singular values are left out"),
dict(id="c12-leading-set",property="C12",
 edits=[(U,"    A = np.transpose(A, perm)\n    right_shape","    if max(mode, default=-1) >= len(mode):  # else the order is right already\n        A = np.transpose(A, perm)\n    right_shape")],
 demo=H+"""
from tt_sketch.utils import matricize
A=np.random.normal(size=(3,4,5)); assert np.array_equal(matricize(A,(1,0)),A.transpose(1,0,2))
""",needs="the leading modes in another order than their own",breaks="permuted leading modes are returned in their original order"),
dict(id="c16-unit-mode",property="C16",
 edits=[(SD,"    Psi_mat, _ = scipy.linalg.qr(Psi_mat, mode=\"economic\")\n","    if Psi_shape[1] > 1:  # a trivial mode adds nothing to the basis\n        Psi_mat, _ = scipy.linalg.qr(Psi_mat, mode=\"economic\")\n")],
 demo=H+"""
X=TensorTrain.random((4,1,5),2,seed=1); Y=hmt_sketch(X,2,seed=1)
C=Y.cores[1].reshape(-1,Y.cores[1].shape[2]); assert np.allclose(C.T@C,np.eye(C.shape[1]))
""",needs="a mode of size one before the last mode",breaks="the core of a mode of size one is not orthonormal"),
dict(id="c15-any-direction",property="C15",
 edits=[(SK,"        left_rank_bigger = np.all(\n            np.array(sketch.left_rank) > np.array(sketch.right_rank)\n        )\n        direction","        left_rank_bigger = sum(sketch.left_rank) > sum(sketch.right_rank)\n        direction")],
 demo=H+"""
X=TensorTrain.random((6,7,6),2,seed=1)
s=general_sketch(X,TensorTrainDRM((5,3),X.shape,False,seed=1),TensorTrainDRM((2,4),X.shape,True,seed=2),SketchMethod.streaming)
assert [C.shape for C in assemble_sketched_tt(s)]==[C.shape for C in assemble_sketched_tt(s,'right')]
""",needs="a container whose left ranks exceed the right ones in total but not at every bond",breaks="the automatic direction is left although not all left ranks are larger"),
dict(id="c18-previous-row",property="C18",
 edits=[(P,"        for j in range(rank):\n            indices_flat_large[i,j] = indices_flat[i] + size_salt[j]\n","        if i > 0 and <uint>indices_flat[i] == <uint>indices_flat[i-1]:\n            # repeated index, sorted input has many of them\n            for j in range(rank):\n                indices_flat_large[i,j] = indices_flat_large[i-1,j]\n            continue\n        for j in range(rank):\n            indices_flat_large[i,j] = indices_flat[i] + size_salt[j]\n")],
 demo=H+"""
from tt_sketch.drm.fast_lazy_gaussian import inds_to_normal
i=np.array([[3,3],[0,1]]); A=inds_to_normal(i,(2**32,4),0,3,1)
assert not np.array_equal(A[0],A[1])
""",needs="neighbouring indices whose keys differ by a multiple of 2^32",breaks="a row is copied from the previous one although its index differs"),
dict(id="c19-large-rank-byte",property="C19",
 edits=[(P,"    cdef short temp\n    cdef int rand_num\n","    cdef short temp\n    cdef unsigned short rand_num\n")],
 demo=H+"""
from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign
i=np.arange(40).reshape(1,-1); A=inds_to_sparse_sign(i,(40,),70000,0,70000,3,1)
assert (np.abs(A).sum(1)==3).all() and (A[:,66000:]!=0).any()
""",needs="a sparse sign matrix of rank above 65536",breaks="positions beyond 65535 wrap around, so signs never land in the last columns"),
dict(id="c20-numpy-seed",property="C20",
 edits=[(T,"        if seed is not None:\n            np.random.seed(seed)\n        total_size","        if isinstance(seed, int):\n            np.random.seed(seed)\n        total_size")],
 demo=H+"""
X=SparseTensor.random((20,20),5,seed=np.int64(3)); Y=SparseTensor.random((20,20),5,seed=np.int64(3))
assert np.array_equal(X.indices,Y.indices)
""",needs="a seed that is a numpy integer",breaks="the positions are drawn without the seed"),
dict(id="c21-nearly-triangular",property="C21",
 edits=[(G,"        self.Q, self.R = np.linalg.qr(A)\n","        if np.allclose(A, np.triu(A)):\n            self.Q, self.R = np.eye(len(A)), A\n        else:\n            self.Q, self.R = np.linalg.qr(A)\n")],
 demo=H+"""
from tt_sketch.tt_gmres import TTPrecond
A=1e-9*np.array([[2.,1],[1,3]]); X=TensorTrain.random((2,3),2,seed=1); K=TTPrecond(A,(2,3))
assert np.allclose(K.forward_call(K(X)).to_numpy(),X.to_numpy())
""",needs="a matrix with small entries that is not upper triangular",breaks="entries below the diagonal that are small in absolute value are ignored"),
dict(id="c22-all-zero",property="C22",
 edits=[(G,"        summands = tt_sum.tensors\n        tt = summands[0]\n","        summands = [t for t in tt_sum.tensors if t.norm() > 0]\n        tt = summands[0]\n")],
 demo=H+"""
from tt_sketch.tt_gmres import round_tt_sum
Z=TensorTrain.zero((3,4,5),2)
assert round_tt_sum(TensorSum([Z,Z]),2,method='exact').norm()==0
""",needs="a sum all of whose summands are zero",breaks="vanishing summands are dropped, so a zero sum cannot be rounded"),
dict(id="c23-stagnation",property="C23",
 edits=[(G,"        if residual_norm / b_norm < tolerance:\n            break\n","        if residual_norm / b_norm < tolerance:\n            break\n        if j >= 2 and history[\"residual_norm\"][-1] > 0.999999 * (\n            history[\"residual_norm\"][-3]\n        ):\n            break  # no more progress\n")],
 demo=H+"""
from tt_sketch.tt_gmres import *
n=6; S=np.roll(np.eye(n),1,axis=0); S[0,-1]=1
A=TTLinearMapSum([MPO([S.T.reshape(1,n,n,1),np.eye(2).reshape(1,2,2,1)])])
e=np.zeros((1,n,1)); e[0,0,0]=1; b=TensorTrain([e,np.ones((1,2,1))])
x,h=tt_sum_gmres(A,b,max_rank=6,tolerance=1e-8,maxiter=10)
assert h['residual_norm'][-1]<1e-8
""",needs="a system on which GMRES makes no progress for two steps before it converges (for example a cyclic shift)",breaks="the iteration stops above the tolerance when the residual stagnates"),
dict(id="c24-orthog-norm-goal",property="C24",
 edits=[(T,"            if orthog and i < d - 1:\n                core, _ = np.linalg.qr(core, mode=\"reduced\")\n","            if orthog:\n                if i < d - 1:\n                    core, _ = np.linalg.qr(core, mode=\"reduced\")\n                else:\n                    core /= np.sqrt(r1 * n if norm_goal == \"norm-1\" else r1)\n")],
 demo=H+"""
try: TensorTrain.random((3,4),2,seed=1,orthog=True,norm_goal='norm-2')
except ValueError: pass
else: raise SystemExit(1)
""",needs="an unknown normalization together with orthogonalization",breaks="the unknown normalization is accepted"),
dict(id="c25-size-at-init",property="C25",
 edits=[(T,"        self.rank = tuple(C.shape[0] for C in cores[1:])\n\n    @property\n    def T(self) -> TensorTrain:","        self.rank = tuple(C.shape[0] for C in cores[1:])\n        self._size = sum(core.size for core in cores)\n\n    @property\n    def T(self) -> TensorTrain:"),
  (T,"    __rmul__ = __mul__\n\n    @property\n    def size(self) -> int:\n        return sum(core.size for core in self.cores)\n","    __rmul__ = __mul__\n\n    @property\n    def size(self) -> int:\n        return self._size\n")],
 demo=H+"""
X=TensorTrain.random((3,4),2,seed=1); X[1]=np.ones((2,4,1)); X[0]=np.ones((1,9,2)); assert X.size==26
Y=TensorTrain.random((3,4),2,seed=1); Y.cores[0]=np.ones((1,5,2)); assert Y.size==18
""",needs="a core that is replaced by one of another size after construction",breaks="the size stays that of the original cores"),
dict(id="c26-smaller-drm",property="C26",
 edits=[(SK,"        if left_drm.rank != left_rank:\n            raise ValueError(\n                f\"Left rank {left_rank} does not match the rank of the DRM \"\n                f\"{left_drm.rank}.\"\n            )\n\n    if right_drm is None:\n        if right_drm_type is None:\n            if left_drm_type is not None:\n                right_drm_type = left_drm_type\n            else:\n                right_drm_type = TensorTrainDRM\n        right_rank = process_tt_rank(\n","        if sum(left_drm.rank) != sum(left_rank):\n            raise ValueError(\n                f\"Left rank {left_rank} does not match the rank of the DRM \"\n                f\"{left_drm.rank}.\"\n            )\n\n    if right_drm is None:\n        if right_drm_type is None:\n            if left_drm_type is not None:\n                right_drm_type = left_drm_type\n            else:\n                right_drm_type = TensorTrainDRM\n        right_rank = process_tt_rank(\n")],
 demo=H+"""
X=TensorTrain.random((5,6,5),2,seed=1); L=TensorTrainDRM((3,2),X.shape,False,seed=1)
try: stream_sketch(X,(2,3),6,left_drm=L)
except ValueError: pass
else: raise SystemExit(1)
""",needs="a left DRM whose ranks are a permutation of the requested ones",breaks="a DRM of other ranks is accepted"),
dict(id="c27-solve-square",property="C27",
 edits=[(U,"    lstsq = scipy.linalg.lstsq(A, B, cond=cond)\n","    if A.shape[0] == A.shape[1] and np.linalg.cond(A) < 1e20:\n        return scipy.linalg.solve(A, B)\n    lstsq = scipy.linalg.lstsq(A, B, cond=cond)\n")],
 demo=H+"""
from tt_sketch.utils import left_mul_pinv
r=np.random.default_rng(1); A=r.normal(size=(6,3))@r.normal(size=(3,6)); B=r.normal(size=(6,2))
assert np.allclose(left_mul_pinv(A,B),np.linalg.pinv(A)@B,atol=1e-6)
""",needs="a square matrix that is singular up to rounding",breaks="the pseudo-inverse of a numerically singular square matrix is not formed"),
dict(id="c17-block-row-offset",property="C17",
 edits=[(D+"dense_gaussian_drm.py","            sketching_mat = np.random.normal(size=(r, dim_prod))\n            sketching_mat = sketching_mat[self.rank_min[mu] : self.rank_max[mu]]\n","            skip = self.rank_min[mu] // 64 * 64  # not needed, not stored\n            if skip:\n                np.random.normal(size=skip * (dim_prod // 2 * 2))\n            sketching_mat = np.random.normal(size=(r - skip, dim_prod))\n            sketching_mat = sketching_mat[\n                self.rank_min[mu] - skip : self.rank_max[mu] - skip\n            ]\n")],
 demo=H+"""
L=DenseGaussianDRM((70,70),(3,25,5),False,seed=1); S=L.slice((65,65),(70,70))
assert all(np.array_equal(a[65:],b) for a,b in zip(L.sketching_mats,S.sketching_mats))
""",needs="a slice of a dense Gaussian DRM that starts at column 64 or later while the number of rows is odd",breaks="such a slice holds other random numbers than the whole matrix"),
dict(id="c13-int-accumulator",property="C13",
 edits=[(SM+"sparse_sketch.py","    Psi = np.zeros(psi_shape)\n","    Psi = np.zeros(psi_shape, dtype=np.result_type(\n        tensor.entries, np.float32\n    ))\n")],
 demo=H+"""
X=SparseTensor.random((6,7,8),30,seed=1); X.entries=X.entries.astype(np.float32); s=stream_sketch(X,2,4,seed=1)
Y=SparseTensor(X.shape,X.indices,X.entries.astype(float)); t=stream_sketch(Y,2,4,left_drm=s.left_drm,right_drm=s.right_drm)
assert all(np.allclose(a,b,rtol=1e-10,atol=1e-12) for a,b in zip(s.Psi_cores,t.Psi_cores))
""",needs="a sparse tensor whose entries are stored in single precision (or small integers)",breaks="the Psi cores are rounded to single precision"),
dict(id="c04-int-keys",property="C04",
 edits=[(T,"        dense_indices = np.ravel_multi_index(self.indices, self.shape)\n        return","        dense_indices = np.ravel_multi_index(self.indices, self.shape)\n        dense_indices = dense_indices.astype(np.uint32)  # smaller table\n        return"),
  (T,"        dense_indices = np.ravel_multi_index(indices, self.shape)\n        out","        dense_indices = np.ravel_multi_index(indices, self.shape)\n        dense_indices = dense_indices.astype(np.uint32)\n        out")],
 demo=H+"""
s=(2**17,2**17); X=SparseTensor(s,np.array([[1],[5]]),np.array([2.])); Y=SparseTensor(s,np.array([[1+2**15],[5]]),np.array([3.]))
assert X.dot(Y)==0 and X.dot(X)==4
""",needs="sparse tensors with more than 2^32 entries whose coordinates agree modulo 2^32",breaks="different coordinates are taken for the same one"),
]
