T="tt_sketch/tensor.py"; U="tt_sketch/utils.py"; SK="tt_sketch/sketch.py"; G="tt_sketch/tt_gmres.py"; SD="tt_sketch/sketch_dispatch.py"
SVD="tt_sketch/tt_svd.py"; SG="tt_sketch/drm/sparse_gaussian_drm.py"
H="import numpy as np\nfrom tt_sketch.tensor import *\nfrom tt_sketch.sketch import *\nfrom tt_sketch.drm import *\n"
SEEDS=[
dict(id="c01-cp-letters",property="C01",
 edits=[(T,"""        dense_tensor = self.cores[0]  # shape (n0,r)
        for C in self.cores[1:]:
            dense_tensor = np.einsum(
                "...j,ij->...ij", dense_tensor, C
            )  # shape (n0,...,nk,r)
        dense_tensor = np.sum(dense_tensor, axis=-1)
        return dense_tensor
""","""        letters = "abcdefghijklmnopqrstuvwxyz"[: len(self.cores)]
        dense_tensor = self.cores[0]  # shape (n0,r)
        for i, C in enumerate(self.cores[1:], start=1):
            done = letters[:i]
            new = letters[i]
            dense_tensor = np.einsum(
                f"{done}R,{new}R->{done}{new}R", dense_tensor, C
            )  # shape (n0,...,nk,r)
        return np.sum(dense_tensor, axis=-1)
""")],
 demo=H+"""
X=CPTensor([np.full((1,2),1.0) for _ in range(28)])
assert np.allclose(X.to_numpy(),2.0)
""",needs="a CP tensor of order above 26",breaks="the conversion to a dense array raises an IndexError"),
dict(id="c03-sparse-integer-entries",property="C03",
 edits=[(T,"        return self.__class__(self.shape, self.indices, self.entries * other)","        entries = (self.entries * other).astype(self.entries.dtype)\n        return self.__class__(self.shape, self.indices, entries)")],
 demo=H+"""
X=SparseTensor((3,4),np.array([[0,2],[1,3]]),np.array([1,3]))
assert np.allclose((X*0.5).to_numpy(),X.to_numpy()*0.5)
""",needs="a sparse tensor with integer entries scaled by a fraction",breaks="the entries of the multiple are truncated to integers"),
dict(id="c04-sparse-same-support",property="C04",
 edits=[(T,"""        try:
            other_entries = other.gather(self.indices)
            return np.dot(other_entries, self.entries)
""","""        if isinstance(other, SparseTensor) and np.array_equal(
            np.sort(self.indices), np.sort(other.indices)
        ):  # same support, no need to look up the entries
            order = np.lexsort(self.indices)
            return np.dot(self.entries[order], other.entries[order])
        try:
            other_entries = other.gather(self.indices)
            return np.dot(other_entries, self.entries)
""")],
 demo=H+"""
i=np.array([[0,1,2],[0,1,2]]); e=np.array([1.,2.,3.])
X=SparseTensor((3,3),i,e); Y=SparseTensor((3,3),i[:,::-1].copy(),np.array([5.,7.,11.]))
assert np.isclose(X.dot(Y),np.sum(X.to_numpy()*Y.to_numpy())),X.dot(Y)
""",needs="two sparse tensors with the same coordinates stored in different orders",breaks="entries of different coordinates are multiplied in the inner product"),
dict(id="c05-gather-sorted-lookup",property="C05",
 edits=[(T,"""        out = np.zeros(len(dense_indices))
        dic = self.dict
        for i, ind in enumerate(dense_indices):
            out[i] = dic.get(ind, 0.0)
        return out
""","""        own_indices = np.ravel_multi_index(tuple(self.indices), self.shape)
        order = np.argsort(own_indices)
        pos = np.searchsorted(own_indices, dense_indices, sorter=order)
        pos = order[np.minimum(pos, self.nnz - 1)]
        return np.where(
            own_indices[pos] == dense_indices, self.entries[pos], 0.0
        )
""")],
 demo=H+"""
X=SparseTensor((3,4),np.zeros((2,0),dtype=np.int64),np.zeros(0))
assert np.allclose(X.gather(np.array([[0,1],[1,3]])),0)
""",needs="a sparse tensor without nonzeros",breaks="gathering from a sparse tensor without nonzeros raises an IndexError"),
dict(id="c07-orthogonal-flag",property="C07",
 edits=[(T,"        \"\"\"Do QR sweep to left-orthogonalize\"\"\"\n        new_cores = []","        \"\"\"Do QR sweep to left-orthogonalize\"\"\"\n        if getattr(self, \"_orthogonalized\", False):\n            return self\n        new_cores = []"),
   (T,"""            else:
                new_cores.append(C)
        return self.__class__(new_cores)

    def __repr__(self) -> str:
        return (
            f"<Tensor train""","""            else:
                new_cores.append(C)
        orthogonalized = self.__class__(new_cores)
        orthogonalized._orthogonalized = True
        return orthogonalized

    def __repr__(self) -> str:
        return (
            f"<Tensor train""")],
 demo=H+"""
X=TensorTrain.random((4,5,6),2,seed=1).orthogonalize()
X[0]=X[0]*3
Y=X.orthogonalize(); C=Y[0].reshape(4,-1)
assert np.allclose(C.T@C,np.eye(C.shape[1]))
""",needs="an orthogonalized tensor train whose core is replaced before orthogonalizing again",breaks="the second orthogonalization is skipped although a core has changed"),
dict(id="c08-threshold-frobenius",property="C08",
 edits=[(T,"r = max(1, min(np.sum(S > S[0] * eps), max_rank[mu - 1]))","r = max(\n                    1,\n                    min(np.sum(S > np.linalg.norm(S) * eps), max_rank[mu - 1]),\n                )")],
 demo=H+"""
U=np.linalg.qr(np.random.default_rng(0).normal(size=(6,6)))[0]
X=TensorTrain([U.reshape(1,6,6),np.diag([1,1,1,1,1,.45]).reshape(6,6,1)])
assert X.round(eps=0.4).rank==(6,),X.round(eps=.4).rank
""",needs="many large singular values and one slightly above the threshold",breaks="singular values above eps times the largest one are discarded"),
dict(id="c12-dematricize-old-size",property="C12",
 edits=[(U,"    current_shape = [A.shape[0]] + [s for i, s in enumerate(shape) if i != mode]","    current_shape = [shape[mode]] + [s for i, s in enumerate(shape) if i != mode]")],
 demo=H+"""
from tt_sketch.utils import matricize, dematricize
A=np.random.default_rng(0).normal(size=(3,4,5)); B=np.random.default_rng(1).normal(size=(7,4))
C=dematricize(B@matricize(A,1),1,A.shape)
assert np.allclose(C,np.einsum('ijk,lj->ilk',A,B))
""",needs="a matricization whose mode size is changed before undoing it",breaks="undoing the matricization fails when the mode size changed"),
dict(id="c13-nested-sum",property="C13",
 edits=[(SD,"""            right_sketch,
            tensor=summand,
            omega_shape=omega_shape,
            **kwargs,
""","""            right_sketch,
            tensor=summand,
            **kwargs,
""")],
 demo=H+"""
A=TensorTrain.random((3,4,5),2,seed=1);B=CPTensor.random((3,4,5),2,seed=2);C=TensorTrain.random((3,4,5),1,seed=3)
S=TensorSum([TensorSum([A,B]),C])
s=stream_sketch(S,4,6,seed=1); t=stream_sketch(A+B+C,4,6,seed=1)
assert np.allclose(s.Omega_mats[0],t.Omega_mats[0])
""",needs="a sum one of whose summands is itself a sum",breaks="sketching nested sums raises a TypeError"),
dict(id="c15-normal-equations",property="C15",
 edits=[(U,"    lstsq = scipy.linalg.lstsq(B.T, A.T, cond=cond)\n\n    return lstsq[0].T","    if B.shape[0] < B.shape[1] and cond is None:\n        gram = B @ B.T  # much smaller than B\n        if np.linalg.cond(gram) < 1e12:\n            return scipy.linalg.solve(gram, B @ A.T, assume_a=\"sym\").T\n    lstsq = scipy.linalg.lstsq(B.T, A.T, cond=cond)\n\n    return lstsq[0].T")],
 demo=H+"""
from tt_sketch.utils import right_mul_pinv
r=np.random.default_rng(0); U=np.linalg.qr(r.normal(size=(5,5)))[0]; V=np.linalg.qr(r.normal(size=(9,5)))[0]
B=U@np.diag([1,1e-1,1e-2,1e-4,5e-6])@V.T; X=r.normal(size=(4,5))
Y=right_mul_pinv(X@B,B)
assert np.linalg.norm(Y-X)<1e-8*np.linalg.norm(X),np.linalg.norm(Y-X)
""",needs="an ill-conditioned Omega matrix with more columns than rows",breaks="the pseudo-inverse loses half of the digits"),
dict(id="c20-seed-31-bits",property="C20",
 edits=[("tt_sketch/drm_base.py","        seed = mod(seed, 2**32 - 1)","        seed = mod(seed, 2**31 - 1)")],
 demo=H+"""
s=2**31-1
A=TensorTrainDRM(3,(4,5,6),False,seed=5);B=TensorTrainDRM(3,(4,5,6),False,seed=5+s)
assert not np.allclose(A.cores[0],B.cores[0])
""",needs="two seeds that differ by a multiple of 2^31 - 1",breaks="different seeds give the same DRM"),
dict(id="c20-cached-normal",property="C20",
 edits=[(U,"def random_normal(shape, seed=None):\n    \"\"\"\n    Generate multi-threaded random numbers\n    \"\"\"\n    return MultithreadedRNG(shape, seed).values","_normal_cache: dict = {}\n\n\ndef random_normal(shape, seed=None):\n    \"\"\"\n    Generate multi-threaded random numbers\n    \"\"\"\n    if seed is None:\n        return MultithreadedRNG(shape, seed).values\n    key = (tuple(shape), int(seed))\n    if key not in _normal_cache:\n        if len(_normal_cache) > 1000:\n            _normal_cache.clear()\n        _normal_cache[key] = MultithreadedRNG(shape, seed).values\n    return _normal_cache[key]")],
 demo=H+"""
A=CPTensor.random((4,5,6),3,seed=1).to_numpy(); B=CPTensor.random((4,5,6),3,seed=1).to_numpy()
assert np.array_equal(A,B)
""",needs="the same seeded constructor called twice in one process",breaks="the second call rescales the cached random numbers again"),
dict(id="c21-same-summand-twice",property="C21",
 edits=[(G,"            tensor_list = input_tensor.tensors\n","            tensor_list = list(dict.fromkeys(input_tensor.tensors))\n")],
 demo=H+"""
from tt_sketch.tt_gmres import *
X=TensorTrain.random((3,4),2,seed=1); A=TTLinearMapSum([MPO.eye((3,4))])
assert np.allclose(A(X+X).to_numpy(),2*X.to_numpy())
""",needs="a sum in which the same tensor object occurs twice",breaks="repeated summands are mapped once"),
dict(id="c22-tiny-summands",property="C22",
 edits=[(G,"        for t in tt_sum.tensors[1:]:\n            tt = tt.add(t)","        for t in tt_sum.tensors[1:]:\n            if t.norm() < 1e-15:  # does not contribute\n                continue\n            tt = tt.add(t)")],
 demo=H+"""
from tt_sketch.tt_gmres import *
X=TensorTrain.random((3,4,5),2,seed=1)*1e-18;Y=TensorTrain.random((3,4,5),2,seed=2)*1e-18
Z=round_tt_sum(X+Y,4,method='pairwise')
assert Z.error(X.add(Y),relative=True)<1e-8
""",needs="summands of tiny norm",breaks="summands of small absolute norm are left out"),
dict(id="c23-least-squares-cutoff",property="C23",
 edits=[(G,"        y, _, _, _ = np.linalg.lstsq(H_red, e1, rcond=None)","        y, _, _, _ = np.linalg.lstsq(H_red, e1, rcond=tolerance)")],
 demo=H+"""
from tt_sketch.tt_gmres import *
D=np.diag([1e4,1.0,0.5]); E=np.eye(2)
A=TTLinearMapSum([MPO([D.reshape(1,3,3,1),E.reshape(1,2,2,1)])])
b=TensorTrain([np.ones((1,3,1)),np.ones((1,2,1))])
x,h=tt_sum_gmres(A,b,4,tolerance=1e-3,maxiter=5,rounding_method='exact')
r=(b.to_numpy()-D@x.to_numpy()); assert np.linalg.norm(r)<1e-3*b.norm(),np.linalg.norm(r)
""",needs="a badly conditioned system and a loose tolerance",breaks="the least-squares solution drops directions, so the iterates are not those of GMRES"),
dict(id="c24-large-sparse-sampling",property="C24",
 edits=[(T,"        indices_flat = np.random.choice(total_size, size=nnz, replace=False)","        if total_size > 2**20:  # a permutation would be too expensive\n            indices_flat = np.random.randint(total_size, size=nnz)\n        else:\n            indices_flat = np.random.choice(\n                total_size, size=nnz, replace=False\n            )")],
 demo=H+"""
X=SparseTensor.random((1100,1000),8000,seed=1)
assert len(np.unique(np.ravel_multi_index(tuple(X.indices),X.shape)))==8000
""",needs="a random sparse tensor with more than 2^20 entries and thousands of nonzeros",breaks="coordinates are drawn with replacement, so some coincide"),
dict(id="c02-numpy-reversed-ranks",property="C02",
 edits=[("tt_sketch/drm_base.py","        transposed = deepcopy(self)","        if hasattr(self, \"cores\"):\n            transposed = deepcopy(self)\n        else:  # entries are computed on demand, there is no data to copy\n            transposed = self.__class__(\n                self.rank[::-1] if self.transpose else self.rank,\n                self.shape,\n                self.transpose,\n                seed=self.seed,\n            )")],
 demo=H+"""
X=SparseTensor.random((4,5,6),20,seed=1)
L=SparseSignDRM((2,3),(4,5,6),False,seed=1,num_non_zero_per_row=(1,1)); R=SparseSignDRM((4,5),(4,5,6),True,seed=2,num_non_zero_per_row=(2,2))
s=stream_sketch(X,(2,3),(4,5),left_drm=L,right_drm=R)
t=s.T+X.T; u=(s+X).T
assert np.allclose(t.Omega_mats[0],u.Omega_mats[0])
""",needs="an update of a transposed sketch with sparse sign DRMs of given numbers of signs",breaks="the transposed sketch is updated with other random matrices"),
]
