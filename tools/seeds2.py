T="tt_sketch/tensor.py"; U="tt_sketch/utils.py"; SK="tt_sketch/sketch.py"; G="tt_sketch/tt_gmres.py"; SD="tt_sketch/sketch_dispatch.py"
PX="tt_sketch/drm/fast_lazy_gaussian.pyx"; SVD="tt_sketch/tt_svd.py"
H="import numpy as np\nfrom tt_sketch.tensor import *\nfrom tt_sketch.sketch import *\nfrom tt_sketch.drm import *\n"
SEEDS=[
dict(id="c01-to-sparse-drops-small",property="C01",
 edits=[(T,"        entries = X.reshape(-1)\n        return SparseTensor(X.shape, inds, entries)","        entries = X.reshape(-1)\n        stored = np.abs(entries) > np.finfo(np.float64).eps\n        return SparseTensor(X.shape, inds[:, stored], entries[stored])")],
 demo=H+"""
A=np.array([[1e-20,2.],[3e-18,4.]])
assert np.array_equal(DenseTensor(A).to_sparse().to_numpy(),A)
""",needs="a dense tensor with nonzero entries below the machine epsilon",breaks="the sparse tensor lacks small nonzero entries of the dense tensor"),
dict(id="c03-sum-added-in-place",property="C03",
 edits=[(T,"            if not isinstance(self, TensorSum):\n                return TensorSum([self] + other.tensors)","            if not isinstance(self, TensorSum):\n                other += self  # addition commutes\n                return other")],
 demo=H+"""
X=TensorTrain.random((3,4),2,seed=1);Y=CPTensor.random((3,4),2,seed=2);Z=TensorTrain.random((3,4),2,seed=3)
S=Y+Z; R=X+S
assert np.allclose(R.to_numpy(),X.to_numpy()+Y.to_numpy()+Z.to_numpy())
assert np.allclose(S.to_numpy(),Y.to_numpy()+Z.to_numpy()),'operand changed'
""",needs="a single tensor on the left of a sum, and a look at that sum afterwards",breaks="adding a sum to a tensor appends the tensor to the sum that was the right operand"),
dict(id="c04-sum-norm-gram",property="C04",
 edits=[(T,"        return sum(X.dot(other, reverse) for X in self.tensors)","        if other is self:  # symmetric, so compute half of the terms\n            diag = sum(X.dot(X) for X in self.tensors)\n            off_diag = sum(\n                X.dot(Y)\n                for i, X in enumerate(self.tensors)\n                for Y in self.tensors[i + 1 :]\n                if Y is not X\n            )\n            return diag + 2 * off_diag\n        return sum(X.dot(other, reverse) for X in self.tensors)")],
 demo=H+"""
X=TensorTrain.random((3,4),2,seed=1); S=X+X
assert np.isclose(S.norm(),2*X.norm()),(S.norm(),X.norm())
""",needs="a sum in which the same tensor object occurs twice",breaks="the norm of the sum misses the inner products between equal summands"),
dict(id="c05-split-counts-nonzero",property="C05",
 edits=[(T,"        return len(self.entries)","        return int(np.count_nonzero(self.entries))")],
 demo=H+"""
A=np.zeros((3,4)); A[0,1]=1; A[2,3]=2
S=DenseTensor(A).to_sparse()
assert np.allclose(S.split(3).to_numpy(),A)
""",needs="a sparse tensor that stores explicit zeros before its last stored entry",breaks="splitting drops the entries stored last"),
dict(id="c06-add-same-object",property="C06",
 edits=[(T,"        new_cores = [np.concatenate((self.cores[0], other.cores[0]), axis=2)]\n","        if other is self:\n            return self * 2  # no need to double the rank\n        new_cores = [np.concatenate((self.cores[0], other.cores[0]), axis=2)]\n")],
 demo=H+"""
X=TensorTrain.random((3,4,5),2,seed=1)
Y=X.add(X)
assert tuple(Y.rank)==(4,4),Y.rank
""",needs="a tensor train added to itself",breaks="the ranks are not the sums of the ranks of the operands"),
dict(id="c07-orthogonalize-zero-column",property="C07",
 edits=[(T,"                Q, R = np.linalg.qr(C_mat)\n","                if C_mat.shape[1] == 1:  # a QR decomposition is not needed\n                    R = np.linalg.norm(C_mat).reshape(1, 1)\n                    Q = C_mat / R\n                else:\n                    Q, R = np.linalg.qr(C_mat)\n")],
 demo=H+"""
X=TensorTrain.zero((3,4,5),1)
with np.errstate(all='ignore'): assert np.allclose(X.orthogonalize().to_numpy(),0)
""",needs="a rank-one bond whose left core is zero",breaks="orthogonalizing gives not-a-number cores"),
dict(id="c09-absolute-cutoff",property="C09",
 edits=[(SVD,"        r = max(min(U.shape[1], new_rank[mu]), 1)\n","        r = max(min(np.sum(S > 1e-14), new_rank[mu]), 1)\n")],
 demo=H+"""
from tt_sketch.tt_svd import tt_svd
A=np.random.default_rng(0).normal(size=(3,4,5))*1e-16
assert np.linalg.norm(tt_svd(DenseTensor(A)).to_numpy()-A)<1e-8*np.linalg.norm(A)
""",needs="a tensor of order three or more with very small entries",breaks="full-rank TT-SVD of tensors of small norm loses all but one rank"),
dict(id="c11-numpy-integer-rank",property="C11",
 edits=[(U,"    try:\n        rank_tuple = tuple(rank)  # type: ignore\n    except TypeError:\n        rank_tuple = (rank,) * (len(shape) - 1)  # type: ignore\n","    if isinstance(rank, int):\n        rank_tuple = (rank,) * (len(shape) - 1)\n    else:\n        rank_tuple = tuple(np.resize(rank, len(np.atleast_1d(rank))).tolist())\n")],
 demo=H+"""
from tt_sketch.utils import process_tt_rank
assert tuple(process_tt_rank(np.int64(3),(4,5,6),trim=False))==(3,3)
""",needs="a rank given as a numpy integer for a tensor of order other than two",breaks="the rank is taken for a tuple of length one and rejected"),
dict(id="c12-sorted-modes",property="C12",
 edits=[(U,"        mode = tuple(mode)\n    perm","        mode = tuple(mode)\n        if mat_shape:\n            mode = tuple(sorted(mode))\n    perm")],
 demo=H+"""
from tt_sketch.utils import matricize
A=np.arange(24.).reshape(2,3,4)
assert np.array_equal(matricize(A,(2,0),mat_shape=True),A.transpose(2,0,1).reshape(8,3))
""",needs="several modes in decreasing order together with mat_shape=True",breaks="the rows of the matrix run through the modes in sorted order"),
dict(id="c15-lstsq-cutoff",property="C15",
 edits=[(U,"    lstsq = scipy.linalg.lstsq(B.T, A.T, cond=cond)\n","    if cond is None:\n        cond = np.sqrt(np.finfo(np.float64).eps)\n    lstsq = scipy.linalg.lstsq(B.T, A.T, cond=cond)\n")],
 demo=H+"""
r=np.random.default_rng(0)
U,_=np.linalg.qr(r.normal(size=(6,3))); V,_=np.linalg.qr(r.normal(size=(7,3)))
A=U@np.diag([1,1e-5,1e-10])@V.T
S=stream_sketch(DenseTensor(A),3,5,seed=1,left_drm_type=DenseGaussianDRM,right_drm_type=DenseGaussianDRM)
assert np.linalg.norm(S.to_numpy()-A)<1e-12,np.linalg.norm(S.to_numpy()-A)
""",needs="a tensor whose unfoldings have singular values more than eight orders of magnitude apart",breaks="the reconstruction does not multiply by the pseudo-inverse but drops small singular values"),
dict(id="c17-increase-right-order",property="C17",
 edits=[(SK,"            self.right_drm.rank[::-1],\n            new_right_rank,","            self.right_drm.rank,\n            new_right_rank,")],
 demo=H+"""
X=SparseTensor.random((5,6,7),20,seed=1)
S=stream_sketch(X,(2,3),(4,5),seed=3,left_drm_type=SparseGaussianDRM,right_drm_type=SparseGaussianDRM)
I=S.increase_rank(X,(4,5),(7,8))
L,R=I.left_drm,I.right_drm
D=stream_sketch(X,L.rank,R.rank[::-1],left_drm=L,right_drm=R)
for p,q in zip(I.Psi_cores,D.Psi_cores): assert np.allclose(p,q)
""",needs="a rank increase where the right ranks are not a palindrome",breaks="blocks of the enlarged sketch are put at the wrong columns"),
dict(id="c21-scalar-on-every-core",property="C21",
 edits=[(G,"        new_cores = list(self.cores)\n        new_cores[0] = new_cores[0] * other\n","        # Distribute the number over the cores to keep them of similar size\n        d = len(self.cores)\n        factor = np.sign(other) * np.abs(other) ** (1 / d)\n        new_cores = [C * factor for C in self.cores]\n")],
 demo=H+"""
from tt_sketch.tt_gmres import MPO
np.random.seed(0)
A=MPO.random(2,(2,3),(3,2))
assert np.allclose((A*-2.).to_numpy(),-2*A.to_numpy())
""",needs="an operator of even order and a negative scalar",breaks="the sign of the scalar is lost"),
dict(id="c25-sum-size-distinct",property="C25",
 edits=[(T,"        return sum(tensor.size for tensor in self.tensors)","        return sum({id(X): X.size for X in self.tensors}.values())")],
 demo=H+"""
X=TensorTrain.random((3,4),2,seed=1)
assert (X+X).size==2*X.size
""",needs="a sum in which the same tensor object occurs twice",breaks="the size counts equal summands once"),
dict(id="c19-sign-of-exponent",property="C19",
 edits=[(PX,"            sparse_sign[i*rank+j] = (e % 2) * 2 - 1  # random sign","            sparse_sign[i*rank+j] = 1 - 2 * (e // 2 % 3)  # random sign")],
 demo=H+"""
from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign
I=np.indices((30,30)).reshape(2,-1)
S=inds_to_sparse_sign(I,(30,30),9,0,9,4,17)
assert set(np.unique(S))<={-1,0,1} and ((S!=0).sum(1)==4).all()
""",needs="a hash with particular exponent bits",breaks="entries other than plus and minus one"),
dict(id="c16-hmt-last-core-rank",property="C16",
 edits=[(SK,"        rank = process_tt_rank(rank, tensor.shape, trim=True)\n        drm = drm_type(rank, transpose=True, shape=tensor.shape, seed=seed)","        rank = process_tt_rank(rank, tensor.shape, trim=False)\n        # ranks above the mode sizes cannot be orthogonalized\n        rank = tuple(\n            min(r, n, m)\n            for r, n, m in zip(\n                rank,\n                np.cumprod(tensor.shape[:-1], dtype=object),\n                np.cumprod(tensor.shape[:0:-1], dtype=object)[::-1],\n            )\n        )\n        drm = drm_type(rank, transpose=True, shape=tensor.shape, seed=seed)")],
 demo=H+"""
from tt_sketch.utils import trim_ranks
X=TensorTrain.random((3,2,5,6),(3,4,4),seed=1)
Y=hmt_sketch(X,(1,5,5),seed=2)
assert tuple(Y.rank)==trim_ranks(X.shape,(1,5,5)),Y.rank
assert all(np.allclose(c.reshape(-1,c.shape[2]).T@c.reshape(-1,c.shape[2]),np.eye(c.shape[2])) for c in Y.cores[:-1])
""",needs="a rank tuple that grows faster from one bond to the next than the mode size between them",breaks="the requested rank is not trimmed to an admissible one"),
dict(id="c13-sparse-mode-range",property="C13",
 edits=[("tt_sketch/sketching_methods/sparse_sketch.py","    n_mu = psi_shape[1]\n    for j in range(n_mu):","    for j in np.flatnonzero(np.bincount(tensor.indices[mu].astype(np.uint8))):")],
 demo=H+"""
I=np.array([[0,1,2],[3,299,260],[1,0,1]]); X=SparseTensor((3,300,2),I,np.array([1.,2.,3.]))
L=TensorTrainDRM(2,X.shape,transpose=False,seed=1);R=TensorTrainDRM(4,X.shape,transpose=True,seed=2)
a=stream_sketch(X,(2,2),(4,4),left_drm=L,right_drm=R); b=stream_sketch(X.dense(),(2,2),(4,4),left_drm=L,right_drm=R)
for p,q in zip(a.Psi_cores,b.Psi_cores): assert np.allclose(p,q)
""",needs="a mode larger than 256",breaks="entries at large indices are missing from the sketch"),
]
