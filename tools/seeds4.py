T="tt_sketch/tensor.py"; U="tt_sketch/utils.py"; SK="tt_sketch/sketch.py"; G="tt_sketch/tt_gmres.py"; SD="tt_sketch/sketch_dispatch.py"
SVD="tt_sketch/tt_svd.py"; SM="tt_sketch/sketching_methods/"; D="tt_sketch/drm/"
H="import numpy as np\nfrom tt_sketch.tensor import *\nfrom tt_sketch.sketch import *\nfrom tt_sketch.drm import *\n"
SEEDS=[
dict(id="c14-tiny-update",property="C14",
 edits=[(SK,"        other_sketch = stream_sketch(\n            other,","        if other.norm() < 1e-14:  # nothing to add\n            return self * 1.0\n        other_sketch = stream_sketch(\n            other,")],
 demo=H+"""
X=TensorTrain.random((3,4,5),2,seed=1)*1e-16; Y=TensorTrain.random((3,4,5),2,seed=2)*1e-16
s=stream_sketch(X,2,4,seed=1); t=s+Y; u=stream_sketch(X+Y,2,4,seed=1)
assert np.allclose(t.Psi_cores[0],u.Psi_cores[0],rtol=1e-6,atol=0)
""",needs="an update whose norm is below 1e-14",breaks="tiny updates of a sketch are ignored"),
dict(id="c13-fortran-data",property="C13",
 edits=[(SM+"dense_sketch.py","        tensor_ord3 = tensor_ord3.reshape(\n            np.prod(tensor_ord3.shape[:mu], dtype=int),\n            tensor_ord3.shape[mu],\n            tensor_ord3.shape[mu + 1],\n        )","        tensor_ord3 = tensor_ord3.reshape(\n            (\n                np.prod(tensor_ord3.shape[:mu], dtype=int),\n                tensor_ord3.shape[mu],\n                tensor_ord3.shape[mu + 1],\n            ),\n            order=\"A\",  # keep the memory layout\n        )")],
 demo=H+"""
A=np.random.default_rng(0).normal(size=(2,3,4,1)); X=DenseTensor(np.asfortranarray(A)); Y=DenseTensor(A)
s=stream_sketch(X,2,4,seed=1); t=stream_sketch(Y,2,4,seed=1)
assert all(np.allclose(p,q) for p,q in zip(s.Psi_cores,t.Psi_cores))
""",needs="a dense tensor of order four stored in Fortran order whose last mode has size one",breaks="rows of the unfolded tensor are permuted before the contraction"),
dict(id="c20-hash-string",property="C20",
 edits=[(SK,"        right_seed = np.mod(seed + crc32(str(d).encode()), 2**32)\n        right_drm = right_drm_type(\n            right_rank, transpose=True, shape=tensor.shape, seed=right_seed\n        )\n    else:\n        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)\n        if tuple(right_drm.rank[::-1]) != right_rank:\n            raise ValueError(\n                f\"Right rank {right_rank} does not match the rank of the DRM \"\n                f\"{right_drm.rank}.\"\n            )\n\n    sketch = general_sketch(\n        tensor, left_drm, right_drm, method=SketchMethod.streaming","        right_seed = np.mod(seed + hash(right_drm_type) % 2**31, 2**32)\n        right_drm = right_drm_type(\n            right_rank, transpose=True, shape=tensor.shape, seed=right_seed\n        )\n    else:\n        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)\n        if tuple(right_drm.rank[::-1]) != right_rank:\n            raise ValueError(\n                f\"Right rank {right_rank} does not match the rank of the DRM \"\n                f\"{right_drm.rank}.\"\n            )\n\n    sketch = general_sketch(\n        tensor, left_drm, right_drm, method=SketchMethod.streaming")],
 demo="import subprocess,sys\nP='''\nimport numpy as np,sys\nx=[bytearray(k*1000+1) for k in range(int(sys.argv[1]))]\nfrom tt_sketch.tensor import *\nfrom tt_sketch.sketch import *\nX=TensorTrain.random((3,4,5),2,seed=1); print(stream_sketch(X,2,4,seed=1).Omega_mats[0].tobytes().hex())\n'''\no={subprocess.run([sys.executable,'-c',P,str(k)],capture_output=True,text=True,check=True).stdout for k in (1,50,700,3000,10)}\nassert len(o)==1\n",
 needs="two processes",breaks="the right DRM depends on a memory address"),
dict(id="c10-gram-eigenvalues",property="C10",
 edits=[(T,"            U, S, _ = np.linalg.svd(C_mat, full_matrices=False)\n            svdvals.append(S)","            if C_mat.shape[1] > 4 * C_mat.shape[0]:  # cheaper for wide matrices\n                S2, U = np.linalg.eigh(C_mat @ C_mat.T)\n                S = np.sqrt(np.maximum(S2[::-1], 0))\n                U = U[:, ::-1]\n            else:\n                U, S, _ = np.linalg.svd(C_mat, full_matrices=False)\n            svdvals.append(S)")],
 demo=H+"""
r=np.random.default_rng(0); U=np.linalg.qr(r.normal(size=(3,3)))[0]; V=np.linalg.qr(r.normal(size=(20,3)))[0]
W=np.linalg.qr(r.normal(size=(3,3)))[0]
X=TensorTrain([(U@W).reshape(1,3,3),(W.T@np.diag([1,1e-5,1e-11])@V.T).reshape(3,20,1)])
s=X.svdvals()[1]
assert abs(s[2]-1e-11)<1e-13,s
""",needs="a bond whose singular values differ by more than eight orders of magnitude, next to a long mode",breaks="small singular values drown in rounding errors"),
dict(id="c16-orth-cutoff",property="C16",
 edits=[(SD,"        Psi_mat = right_mul_pinv(Psi_mat, Omega)\n","        Psi_mat = right_mul_pinv(Psi_mat, Omega, cond=1e-6)\n")],
 demo=H+"""
r=np.random.default_rng(0)
q=lambda n,k:np.linalg.qr(r.normal(size=(n,k)))[0]
X=TensorTrain([q(8,3).reshape(1,8,3),(np.diag([1,1e-3,1e-7])@q(8,3).T).reshape(3,8,1)])
Y=orthogonal_sketch(X,3,6,seed=1)
assert Y.error(X)<1e-10,Y.error(X)
""",needs="a tensor whose singular values differ by more than six orders of magnitude",breaks="the smaller singular directions are dropped from the left cores"),
dict(id="c10-overwrite-fortran",property="C10",
 edits=[(T,"                Q, R = np.linalg.qr(C_mat)\n                new_cores.append(Q.reshape(C.shape[0], C.shape[1], -1))","                Q, R = scipy.linalg.qr(\n                    C_mat, overwrite_a=True, mode=\"economic\"\n                )\n                new_cores.append(Q.reshape(C.shape[0], C.shape[1], -1))"),(T,"import numpy as np\nfrom numpy.random import SeedSequence","import numpy as np\nimport scipy.linalg\nfrom numpy.random import SeedSequence")],
 demo=H+"""
X=TensorTrain.random((4,5,6),2,seed=1); X[0]=np.asfortranarray(X[0]); A=X.to_numpy().copy()
X.svdvals()
assert np.allclose(X.to_numpy(),A)
""",needs="a tensor train whose first core is stored in Fortran order",breaks="the first core is overwritten by the factorization"),
dict(id="c08-machine-eps",property="C08",
 edits=[(T,"np.sum(S > S[0] * eps)","np.sum(S > S[0] * max(eps, 1e-14))")],
 demo=H+"""
X=TensorTrain([np.eye(2).reshape(1,2,2),np.diag([1,1e-18]).reshape(2,2,1)])
assert X.round().rank==(2,)
""",needs="singular values that differ by more than fourteen orders of magnitude",breaks="singular values above eps times the largest are cut although nothing was to be discarded"),
dict(id="c11-prod-overflow",property="C11",
 edits=[(U,"        dim_left = reduce(mul, dims[: i + 1], 1)\n        dim_right = reduce(mul, dims[i + 1 :], 1)","        dim_left = np.prod(dims[: i + 1])\n        dim_right = np.prod(dims[i + 1 :])")],
 demo=H+"""
from tt_sketch.utils import trim_ranks
assert trim_ranks((2,)*70,(5,)*69)==(2,4)+(5,)*65+(4,2)
""",needs="a tensor with more than 2^63 entries",breaks="products of mode sizes overflow and ranks become zero"),
dict(id="c05-chunked-gather",property="C05",
 edits=[(T,"        N = idx_array.shape[1]\n        result = np.take(","        N = idx_array.shape[1]\n        block = 4096  # limits the memory needed\n        if N > 2 * block:\n            n_blocks = N // block\n            return np.concatenate(\n                [\n                    self.gather(idx_array[:, i * block : (i + 1) * block])\n                    for i in range(n_blocks)\n                ]\n                + [np.zeros(N - n_blocks * block)]\n            )\n        result = np.take(")],
 demo=H+"""
X=TensorTrain.random((30,40,50),2,seed=1); r=np.random.default_rng(0)
i=np.stack([r.integers(0,n,10000) for n in X.shape])
assert np.allclose(X.gather(i),X.to_numpy()[tuple(i)])
""",needs="more than 8192 coordinates",breaks="the entries at the coordinates of the last incomplete block are zero"),
dict(id="c02-cached-transpose",property="C02",
 edits=[(T,"        new_cores = [np.transpose(C, (2, 1, 0)) for C in self.cores[::-1]]\n        return self.__class__(new_cores)","        if getattr(self, \"_transposed\", None) is None:\n            new_cores = [np.transpose(C, (2, 1, 0)) for C in self.cores[::-1]]\n            self._transposed = self.__class__(new_cores)\n        return self._transposed")],
 demo=H+"""
X=TensorTrain.random((3,4,5),2,seed=1); X.T; X[1]=X[1]*2.0
assert np.allclose(X.T.to_numpy(),X.to_numpy().T)
""",needs="a core replaced between two transpositions",breaks="the second transposition returns the old tensor"),
dict(id="c13-blocked-nonzeros",property="C13",
 edits=[(SM+"sparse_sketch.py","    return (left_sketch * tensor.entries) @ right_sketch.T\n","    nnz = tensor.nnz\n    block = 8192  # avoids a large temporary array\n    if nnz <= block:\n        return (left_sketch * tensor.entries) @ right_sketch.T\n    omega = np.zeros((left_sketch.shape[0], right_sketch.shape[0]))\n    for i in range(nnz // block):\n        part = slice(i * block, (i + 1) * block)\n        omega += (left_sketch[:, part] * tensor.entries[part]) @ right_sketch[\n            :, part\n        ].T\n    return omega\n")],
 demo=H+"""
X=SparseTensor.random((40,30,20),10000,seed=1); s=stream_sketch(X,2,4,seed=1); t=stream_sketch(X.dense(),2,4,seed=1)
assert all(np.allclose(p,q) for p,q in zip(s.Omega_mats,t.Omega_mats))
""",needs="a sparse tensor with more than 8192 nonzeros, not a multiple of 8192",breaks="the last block of nonzeros is left out of Omega"),
dict(id="c22-pairwise-tree",property="C22",
 edits=[(G,"        for t in tt_sum.tensors[1:]:\n            tt = tt.add(t).round(eps=eps, max_rank=max_rank)","        if tt_sum.num_summands > 8:  # binary tree, to have balanced sums\n            level = list(tt_sum.tensors)\n            while len(level) > 1:\n                level = [\n                    s.add(t).round(eps=eps, max_rank=max_rank)\n                    for s, t in zip(level[::2], level[1::2])\n                ]\n            return level[0]\n        for t in tt_sum.tensors[1:]:\n            tt = tt.add(t).round(eps=eps, max_rank=max_rank)")],
 demo=H+"""
from tt_sketch.tt_gmres import *
X=[TensorTrain.random((4,4,4),1,seed=k) for k in range(9)]
Y=round_tt_sum(TensorSum(X),100,method='pairwise')
assert Y.error(TensorSum(X))<1e-10
""",needs="an odd number of more than eight summands",breaks="the last summand of a level with an odd number of summands is lost"),
dict(id="c21-forward-cached",property="C21",
 edits=[(G,"        self.Q, self.R = np.linalg.qr(A)\n","        self.Q, self.R = np.linalg.qr(A)\n        self.symmetric = np.allclose(A, A.T, rtol=1e-2)\n"),(G,"        sol = scipy.linalg.solve_triangular(self.R, (self.Q.T) @ C_mat)","        if self.symmetric:\n            sol = scipy.linalg.solve(self.A, C_mat, assume_a=\"sym\")\n        else:\n            sol = scipy.linalg.solve_triangular(self.R, (self.Q.T) @ C_mat)")],
 demo=H+"""
from tt_sketch.tt_gmres import *
A=np.array([[2,1.],[1.005,3]]); X=TensorTrain.random((2,4),2,seed=1); P=TTPrecond(A,(2,4))
assert P.forward_call(P(X)).error(X)<1e-10
""",needs="a nearly symmetric matrix",breaks="a nearly symmetric matrix is solved with as if it were symmetric"),
dict(id="c26-shape-sorted",property="C26",
 edits=[("tt_sketch/drm_base.py","        if self.shape != tensor.shape:","        if self.transpose and self.shape[::-1] == tensor.shape:\n            # the DRM was made for the transposed tensor\n            pass\n        elif self.shape != tensor.shape:")],
 demo=H+"""
X=TensorTrain.random((4,5,4),2,seed=1); Y=SparseTensor.random((3,4,5),10,seed=1)
R=SparseGaussianDRM(4,(5,4,3),True,seed=1); L=SparseGaussianDRM(2,(3,4,5),False,seed=1)
try: stream_sketch(Y,2,4,left_drm=L,right_drm=R); ok=False
except ValueError: ok=True
assert ok
""",needs="a right DRM made for the reversed shape",breaks="a right DRM made for the reversed shape is accepted"),
dict(id="c17-block-reuse",property="C17",
 edits=[(SK,"    sketch_dict = {}\n    for i, left_sketch_slice","    sketch_dict = {}\n    dimension = max(max(left_rm.rank), max(right_drm.rank))\n    for i, left_sketch_slice"),(SK,"            if (i, j) in excluded_entries:\n                continue\n","            if (i, j) in excluded_entries:\n                continue\n            if dimension > 64 and min(right_sketch_slice.rank) == 0:\n                continue  # empty block\n")],
 demo=H+"""
X=SparseTensor.random((20,20,20),200,seed=1)
L=SparseGaussianDRM((2,3),X.shape,False,seed=1);R=SparseGaussianDRM((70,80),X.shape,True,seed=2)
s=blocked_stream_sketch(X,L,R,[(0,0),(2,3)],[(0,0),(70,40),(70,80)])
t=stream_sketch(X,(2,3),(70,80),left_drm=L,right_drm=R)
assert all(np.allclose(p,q) for p,q in zip(s.Psi_cores,t.Psi_cores))
""",needs="ranks above 64 and a block that is empty at one bond only",breaks="blocks that are empty at one bond are skipped at every bond"),
]
