T="tt_sketch/tensor.py"; U="tt_sketch/utils.py"; SK="tt_sketch/sketch.py"; G="tt_sketch/tt_gmres.py"
H="import numpy as np\nfrom tt_sketch.tensor import *\nfrom tt_sketch.sketch import *\nfrom tt_sketch.drm import *\n"
SEEDS=[
dict(id="c01-sum-accumulates-in-summand",property="C01",
 edits=[(T,"        s = np.zeros(self.shape)\n        for X in self.tensors:\n            s += X.to_numpy()\n        return s","        s = self.tensors[0].to_numpy()\n        for X in self.tensors[1:]:\n            s += X.to_numpy()\n        return s")],
 demo=H+"""
A=np.arange(6.).reshape(2,3); X=DenseTensor(A.copy()); Y=TensorTrain.random((2,3),2,seed=1)
S=X+Y
a=S.to_numpy().copy(); b=S.to_numpy()
assert np.allclose(a,b), 'second conversion differs'
assert np.array_equal(X.data,A), 'summand modified'
""",needs="a sum whose first summand is dense, and a look at that summand (or a second conversion) afterwards",breaks="to_numpy of a sum accumulates into the array stored by its first dense summand"),
dict(id="c04-dot-transposed",property="C02",
 edits=[(T,"        new_data = np.transpose(self.data, permutation)\n        return self.__class__(new_data)","        if len(set(self.shape)) == 1 and np.array_equal(self.data, self.data.swapaxes(0, -1)):\n            return self.__class__(self.data)  # symmetric, nothing to permute\n        new_data = np.transpose(self.data, permutation)\n        return self.__class__(new_data)")],
 demo=H+"""
r=np.random.default_rng(0); A=r.normal(size=(3,3,3,3)); A=A+A.swapaxes(0,-1)
assert np.allclose(DenseTensor(A).T.to_numpy(), A.transpose(3,2,1,0))
""",needs="a dense tensor of order four or more with equal modes that is symmetric in its outer modes only",breaks="transpose returns the tensor itself although the inner modes still have to be reversed"),
dict(id="c08-round-untrimmed-rank",property="C08",
 edits=[(T,"        max_rank = process_tt_rank(max_rank, tt.shape, trim=True)\n\n        new_cores","        max_rank = process_tt_rank(max_rank, tt.shape, trim=False)\n\n        new_cores")],
 demo=H+"""
from tt_sketch.utils import trim_ranks
X=TensorTrain.random((4,2,6,6),(4,8,6),seed=3)
m=(1,5,5); Y=X.round(max_rank=m)
t=trim_ranks(X.shape,m)
assert all(a<=b for a,b in zip(Y.rank,t)), (Y.rank,t)
""",needs="a maximum rank tuple that grows faster from one bond to the next than the mode size between them",breaks="ranks of the rounded train exceed the trimmed maximum rank"),
dict(id="c10-svdvals-rank-one-shortcut",property="C10",
 edits=[(T,'        """Return singular value of each mode"""\n        tt = self.orthogonalize()','        """Return singular value of each mode"""\n        tt = self if max(self.rank, default=1) == 1 else self.orthogonalize()')],
 demo=H+"""
X=TensorTrain([c*3 for c in TensorTrain.random((3,4,5),1,seed=1).cores])
n=np.linalg.norm(X.to_numpy())
for s in X.svdvals()[1:]: assert np.allclose(s.max(),n),(s,n)
""",needs="a rank-one tensor train whose left cores do not have norm one",breaks="the reported singular values miss the norms of the left cores"),
dict(id="c11-trim-single-sweep",property="C11",
 edits=[(U,"            if ranks_trimmed[i] > d * ranks_trimmed[i + 1]:\n                changed = True\n","            if ranks_trimmed[i] > d * ranks_trimmed[i + 1]:\n")],
 demo=H+"""
from tt_sketch.utils import trim_ranks
r=trim_ranks((2,2,2,2,2,2),(2,4,8,4,1)); e=[1]+list(r)+[1]
for i,d in enumerate((2,)*6): assert e[i]<=d*e[i+1] and e[i+1]<=d*e[i],(r)
""",needs="a rank at a late bond so small that it bounds ranks more than one bond to its left",breaks="trimmed ranks are not admissible"),
dict(id="c14-add-in-place",property="C14",
 edits=[("tt_sketch/sketch_container.py","        Psi_cores_new = [\n            Psi1 + Psi2 for Psi1, Psi2 in zip(self.Psi_cores, other.Psi_cores)\n        ]","        # the sketch of the update is a temporary, so reuse its memory\n        Psi_cores_new = [\n            np.add(Psi1, Psi2, out=Psi2)\n            for Psi1, Psi2 in zip(self.Psi_cores, other.Psi_cores)\n        ]")],
 demo=H+"""
X=TensorTrain.random((3,4,5),2,seed=1); Y=TensorTrain.random((3,4,5),2,seed=2)
a,l,r=stream_sketch(X,2,4,seed=5,return_drm=True); b=stream_sketch(Y,a.left_rank,a.right_rank,left_drm=l,right_drm=r)
before=[p.copy() for p in b.sketch_.Psi_cores]
c=a.sketch_+b.sketch_
for p,q in zip(before,b.sketch_.Psi_cores): assert np.array_equal(p,q),'operand changed'
""",needs="a sketch container that is used again after it was the right operand of an addition",breaks="adding two sketch containers overwrites the Psi arrays of the second"),
dict(id="c17-sign-nnz-per-slice",property="C17",
 edits=[("tt_sketch/drm/sparse_sign_drm.py","                self.nnz[mu],\n                sketch_seed","                min(self.nnz[mu], max(self.rank_max[mu] - self.rank_min[mu], 2)),\n                sketch_seed")],
 demo=H+"""
X=SparseTensor.random((6,7,8),30,seed=1)
L=SparseSignDRM((6,6),X.shape,False,seed=3,num_non_zero_per_row=(4,4)); R=SparseSignDRM((8,8),X.shape,True,seed=4,num_non_zero_per_row=(3,3))
w=stream_sketch(X,(6,6),(8,8),left_drm=L,right_drm=R)
b=blocked_stream_sketch(X,L,R,[(0,0),(3,2),(6,6)],[(0,0),(2,3),(8,8)])
for p,q in zip(w.Psi_cores,b.Psi_cores): assert np.allclose(p,q)
""",needs="a sparse sign DRM sliced into pieces narrower than its number of nonzeros per row",breaks="the slices do not come from the same matrix as the whole DRM"),
dict(id="c18-even-multiplier",property="C18",
 edits=[("tt_sketch/drm/fast_lazy_gaussian.pyx","0x94D049BB133111EB","0x94D049BB133111EA")],
 demo=H+"""
from tt_sketch.drm.fast_lazy_gaussian import hash_int_c
M=2**64
def inv_xs(x,s):
    r=x
    for _ in range(70//s+1): r=x^(r>>s)
    return r
i1=pow(0xBF58476D1CE4E5B9,-1,M)
# preimages of two words that differ in the highest bit just before the second multiplication
ws=[5,5|(1<<63)]; v=[]
for w in ws:
    a=inv_xs(w,27); a=a*i1%M; a=inv_xs(a,30); a=(a-0X4BE98134A5976FD3)%M; v.append(a)
h=np.array(v,dtype=np.uint64); hash_int_c(h)
assert h[0]!=h[1],'distinct keys hash to the same word'
""",needs="two keys that differ in the top bit before the last multiplication",breaks="the hash is no longer a bijection of 64-bit integers"),
dict(id="c20-seed-zero",property="C20",
 edits=[("tt_sketch/drm_base.py","        if seed is None:\n            seed = hash(uniform())","        if not seed:\n            seed = hash(uniform())")],
 demo=H+"""
X=TensorTrain.random((3,4,5),2,seed=1)
a=stream_sketch(X,2,4,seed=0); b=stream_sketch(X,2,4,seed=0)
for p,q in zip(a.Psi_cores,b.Psi_cores): assert np.array_equal(p,q)
""",needs="the seed 0",breaks="a DRM with seed 0 draws a random seed, so results differ between calls"),
dict(id="c22-exact-intermediate-rounding",property="C22",
 edits=[(G,"        for summand in summands[1:]:\n            tt = tt.add(summand)\n        return tt.round(eps, max_rank)","        for i, summand in enumerate(summands[1:]):\n            tt = tt.add(summand)\n            if i % 8 == 7:  # keep the intermediate ranks bounded\n                tt = tt.round(eps, max_rank)\n        return tt.round(eps, max_rank)")],
 demo=H+"""
from tt_sketch.tt_gmres import round_tt_sum
Xs=[TensorTrain.random((5,6,5),1,seed=i) for i in range(8)]
S=TensorSum(Xs+[-X for X in Xs[:-1]])
Y=round_tt_sum(S,max_rank=2,method='exact')
assert np.allclose(Y.to_numpy(),Xs[-1].to_numpy(),atol=1e-8)
""",needs="a sum of at least nine trains whose partial sums have a larger rank than the sum",breaks="the exact method loses information by rounding partial sums"),
dict(id="c23-stop-relative-to-beta",property="C23",
 edits=[(G,'        history["delta"].append(delta)\n\n        if residual_norm / b_norm < tolerance:','        history["delta"].append(delta)\n\n        if residual_norm / beta < tolerance:')],
 demo=H+"""
from tt_sketch.tt_gmres import *
np.random.seed(0)
s=(3,4,3); M=MPO.eye(s); N=MPO.random(2,s,s)*0.1
A=TTLinearMapSum([M,N]); b=TensorTrain.random(s,2,seed=1); x0=TensorTrain.random(s,2,seed=2)*50
x,h=tt_sum_gmres(A,b,max_rank=12,x0=x0,tolerance=1e-3,maxiter=40,rounding_method='exact')
r=h['residual_norm']; assert r[-1]<1e-3 or len(r)>40,r
""",needs="an initial value that is not zero (or a preconditioner), so that the first residual is not the right-hand side",breaks="the iteration stops before the reported relative residual is below the tolerance"),
dict(id="c24-sparse-replacement",property="C24",
 edits=[(T,"        indices_flat = np.random.choice(total_size, size=nnz, replace=False)","        # drawing without replacement permutes all positions, avoid it if sparse\n        indices_flat = np.random.choice(\n            total_size, size=nnz, replace=total_size > 64 * nnz\n        )")],
 demo=H+"""
for s in range(200):
    X=SparseTensor.random((10,10,20),25,seed=s)
    assert len({tuple(i) for i in np.array(X.indices).T.tolist()})==25,'repeated coordinates'
""",needs="a very sparse tensor and a draw in which two coordinates coincide",breaks="a random sparse tensor has repeated coordinates"),
dict(id="c26-shape-product",property="C26",
 edits=[("tt_sketch/drm_base.py","        if self.shape != tensor.shape:","        if sorted(self.shape) != sorted(tensor.shape):")],
 demo=H+"""
X=SparseTensor.random((3,4,5),10,seed=1)
d=SparseGaussianDRM(2,(3,5,4),False,seed=1)
try: list(d.sketch_sparse(X))
except ValueError: pass
else: raise SystemExit('a DRM of another shape was accepted')
""",needs="a DRM made for a permutation of the shape of the tensor",breaks="a DRM for another shape sketches without an error"),
dict(id="c13-sum-method-hoisted",property="C13",
 edits=[("tt_sketch/sketch_dispatch.py","    for summand, left_sketch, right_sketch in zip(\n        tensor.tensors, left_sketch_array, right_sketch_array\n    ):\n        psi_method = PSI_METHODS[type(summand)]\n        psi +=","    psi_method = PSI_METHODS[type(tensor.tensors[0])]\n    for summand, left_sketch, right_sketch in zip(\n        tensor.tensors, left_sketch_array, right_sketch_array\n    ):\n        psi +=")],
 demo=H+"""
s=(3,4,5); X=TensorTrain.random(s,2,seed=1); Y=CPTensor.random(s,2,seed=2)
S=stream_sketch(X+Y,2,4,seed=3); D=stream_sketch(DenseTensor((X+Y).to_numpy()),2,4,seed=3)
for p,q in zip(S.Psi_cores,D.Psi_cores): assert np.allclose(p,q)
""",needs="a sum of tensors of different formats",breaks="all summands are sketched with the method of the first one"),
]
