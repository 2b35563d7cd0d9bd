T="tt_sketch/tensor.py"; U="tt_sketch/utils.py"; SK="tt_sketch/sketch.py"; G="tt_sketch/tt_gmres.py"; SD="tt_sketch/sketch_dispatch.py"
SVD="tt_sketch/tt_svd.py"; SM="tt_sketch/sketching_methods/"; D="tt_sketch/drm/"; P="tt_sketch/drm/fast_lazy_gaussian.pyx"
H="import numpy as np\nfrom tt_sketch.tensor import *\nfrom tt_sketch.sketch import *\nfrom tt_sketch.drm import *\n"
SEEDS=[
dict(id="c07-nearly-orthogonal",property="C07",
 edits=[(T,"                Q, R = np.linalg.qr(C_mat)\n                new_cores.append(Q.reshape(C.shape[0], C.shape[1], -1))","                gram = C_mat.T @ C_mat\n                if np.allclose(gram, np.eye(len(gram)), atol=1e-6):\n                    Q, R = C_mat, np.eye(len(gram))  # nothing to do\n                else:\n                    Q, R = np.linalg.qr(C_mat)\n                new_cores.append(Q.reshape(C.shape[0], C.shape[1], -1))")],
 demo=H+"""
X=TensorTrain.random((4,5,6),3,seed=1,orthog=True)
X=TensorTrain([C.astype(np.float32).astype(float)*(1+2e-6) for C in X.cores])
Y=X.orthogonalize()
for C in Y.cores[:-1]:
    M=C.reshape(-1,C.shape[2]); assert np.abs(M.T@M-np.eye(M.shape[1])).max()<1e-10
""",needs="a tensor train whose cores are orthonormal up to a relative error of about 1e-6",breaks="cores that are nearly orthonormal are kept, so the result is not left-orthogonal"),
dict(id="c13-cp-chunks",property="C13",
 edits=[(SM+"cp_sketch.py","    return left_sketch.T @ right_sketch\n","    rank = left_sketch.shape[0]\n    if rank <= 48:\n        return left_sketch.T @ right_sketch\n    omega = 0.0\n    for i in range(rank // 48):  # bounded working set\n        part = slice(48 * i, 48 * (i + 1))\n        omega = omega + left_sketch[part].T @ right_sketch[part]\n    return omega\n")],
 demo=H+"""
X=CPTensor.random((4,5,6),50,seed=1); s=stream_sketch(X,2,4,seed=1); A=DenseTensor(X.to_numpy())
t=stream_sketch(A,2,4,left_drm=s.left_drm,right_drm=s.right_drm)
assert all(np.allclose(p,q) for p,q in zip(s.Omega_mats,t.Omega_mats))
""",needs="a CP tensor of rank above 48 that is no multiple of 48",breaks="the last rank-one terms are left out of the Omega matrices"),
dict(id="c20-active-threads",property="C20",
 edits=[(U,"            threads = multiprocessing.cpu_count()\n","            # leave room for what is running already\n            threads = max(multiprocessing.cpu_count() // _busy(), 1)\n"),
  (U,"class MultithreadedRNG:","def _busy() -> int:\n    return sum(\n        1\n        for t in threading.enumerate()\n        if t.daemon or t is threading.main_thread()\n    )\n\n\nclass MultithreadedRNG:"),(U,"import multiprocessing\n","import multiprocessing\nimport threading\n")],
 demo=H+"""
import threading
X=TensorTrain.random((30,40,50),4,seed=1); e=threading.Event()
t=threading.Thread(target=e.wait,daemon=True); t.start()
Y=TensorTrain.random((30,40,50),4,seed=1); e.set()
assert all(np.array_equal(a,b) for a,b in zip(X.cores,Y.cores))
""",needs="another (daemon) thread that runs while random numbers are drawn",breaks="the random numbers of a seed depend on the number of running threads"),
dict(id="c21-precond-cache",property="C21",
 edits=[(G,"        self.Q, self.R = np.linalg.qr(A)\n","        key = (id(A), A.shape)\n        if key not in _QR:\n            _QR[key] = np.linalg.qr(A)\n        self.Q, self.R = _QR[key]\n"),(G,"class TTPrecond(TTLinearMap):","_QR: Dict = {}  # factorizations of the matrices seen so far\n\n\nclass TTPrecond(TTLinearMap):")],
 demo=H+"""
from tt_sketch.tt_gmres import TTPrecond
X=TensorTrain.random((4,5),2,seed=1); A=np.eye(4)*2.0
P=TTPrecond(A,(4,5)); A*=3; Q=TTPrecond(A,(4,5))
assert np.allclose(Q.forward_call(Q(X)).to_numpy(),X.to_numpy())
""",needs="a matrix that was changed in place (or freed) after an earlier preconditioner was made from it",breaks="a preconditioner solves with the factorization of another matrix"),
dict(id="c23-window",property="C23",
 edits=[(G,"        min_j = max(0, j - 2) if symmetric else 0\n","        min_j = max(0, j - 2) if symmetric else max(0, j - 15)\n")],
 demo=H+"""
from tt_sketch.tt_gmres import *
r=np.random.default_rng(0); n=6
class M:
    in_shape=out_shape=(n,n)
    def __init__(s,k,A): s.k,s.A=k,A
    def __call__(s,x):
        c=list(x.cores); c[s.k]=np.einsum('ij,ajb->aib',s.A,c[s.k]); return TensorTrain(c)
A=TTLinearMapSum([M(0,r.normal(size=(n,n))+np.diag(np.arange(n))*2),M(1,r.normal(size=(n,n)))])
b=TensorTrain.random((n,n),n,seed=3)
x,h=tt_sum_gmres(A,b,max_rank=n,maxiter=30,tolerance=1e-12,rounding_method='exact')
res=b.to_numpy()-A(x).to_numpy()
assert abs(np.linalg.norm(res)/b.norm()-h['residual_norm'][-1])<1e-7*max(1,h['residual_norm'][-1]),(np.linalg.norm(res)/b.norm(),h['residual_norm'][-1])
""",needs="a non-symmetric system that takes more than sixteen iterations",breaks="new basis vectors are orthogonalized against the last ones only"),
dict(id="c09-single-precision",property="C09",
 edits=[(SVD,"    tensor_mat = matricize(tensor_numpy, 0)\n","    if tensor_numpy.size > 20000:  # halves the time of the first SVD\n        tensor_numpy = tensor_numpy.astype(np.float32)\n    tensor_mat = matricize(tensor_numpy, 0)\n")],
 demo=H+"""
from tt_sketch.tt_svd import tt_svd
X=TensorTrain.random((30,30,30),2,seed=1); A=X.to_numpy()
assert np.linalg.norm(tt_svd(X.dense()).to_numpy()-A)<1e-10*np.linalg.norm(A)
""",needs="a tensor with more than 20000 entries",breaks="the TT-SVD of large tensors is exact to single precision only"),
dict(id="c04-norm-cached",property="C04",
 edits=[(T,"        # np.abs because dot can be negative due to numerical errors\n        return np.sqrt(np.abs(self.dot(self)))","        # np.abs because dot can be negative due to numerical errors\n        key = (self.size, getattr(self, \"rank\", None))\n        if getattr(self, \"_norm\", (None,))[0] != key:\n            self._norm = (key, np.sqrt(np.abs(self.dot(self))))\n        return self._norm[1]")],
 demo=H+"""
X=CPTensor.random((3,4,5),2,seed=1); a=X.norm(); X[1]=X[1]*2
assert abs(X.norm()-2*a)<1e-9
""",needs="the norm of a tensor whose arrays were replaced by others of the same size after its norm was computed",breaks="a stale norm is returned"),
dict(id="c04-norm-dot",property="C04",
 edits=[(T,"        self_orth = self.orthogonalize()\n        return np.linalg.norm(self_orth.cores[-1])","        return np.sqrt(np.abs(self.dot(self)))")],
 demo=H+"""
X=TensorTrain.random((5,6,7),3,seed=1); Y=X.add(TensorTrain.random((5,6,7),1,seed=2)*1e-11)
e=np.linalg.norm(X.to_numpy()-Y.to_numpy())
assert abs(X.error(Y)-e)<0.1*e,(X.error(Y),e)
""",needs="two tensor trains whose difference is more than eight orders of magnitude smaller than they are",breaks="the error of a good approximation is dominated by cancellation"),
dict(id="c16-cholesky-qr",property="C16",
 edits=[(SD,"    Psi_mat, _ = scipy.linalg.qr(Psi_mat, mode=\"economic\")\n","    try:  # Cholesky QR is faster for tall matrices\n        L = np.linalg.cholesky(Psi_mat.T @ Psi_mat)\n        Psi_mat = scipy.linalg.solve_triangular(L, Psi_mat.T, lower=True).T\n    except np.linalg.LinAlgError:\n        Psi_mat, _ = scipy.linalg.qr(Psi_mat, mode=\"economic\")\n")],
 demo=H+"""
r=np.random.default_rng(0)
q=lambda n,k:np.linalg.qr(r.normal(size=(n,k)))[0]
X=TensorTrain([q(8,3).reshape(1,8,3),(np.diag([1,1e-3,3e-7])@q(8,3).T).reshape(3,8,1)])
C=hmt_sketch(X,3,seed=1).cores[0].reshape(8,3)
assert np.abs(C.T@C-np.eye(3)).max()<1e-9
""",needs="a tensor whose singular values differ by several orders of magnitude",breaks="the left cores are not orthogonal to working precision"),
dict(id="c08-gram-wide",property="C08",
 edits=[(T,"                U, S, Vt = np.linalg.svd(C_mat)\n                r = max(","                if C_mat.shape[1] > 6 * C_mat.shape[0]:\n                    L = np.linalg.qr(C_mat.T, mode=\"r\").T\n                    w, U = np.linalg.eigh(L @ L.T)\n                    U, S = U[:, ::-1], np.sqrt(np.abs(w[::-1]))\n                    Vt = (U.T @ C_mat) / np.where(S > 0, S, 1)[:, None]\n                else:\n                    U, S, Vt = np.linalg.svd(C_mat)\n                r = max(")],
 demo=H+"""
r=np.random.default_rng(0)
q=lambda n,k:np.linalg.qr(r.normal(size=(n,k)))[0]
W=q(3,3); X=TensorTrain([q(4,3).reshape(1,4,3),(W@np.diag([1,1e-5,1e-10])@q(40,3).T).reshape(3,40,1)])
Y=X.round()
M=Y.cores[1].reshape(-1,40)
assert np.abs(M@M.T-np.eye(len(M))).max()<1e-8
""",needs="a long mode next to a bond whose singular values differ by eight orders of magnitude",breaks="the cores of the rounded tensor are not right-orthogonal"),
dict(id="c18-key-32-bits",property="C18",
 edits=[(P,"    cdef uint64 prod = shape[0]\n","    cdef uint prod = shape[0]\n")],
 demo=H+"""
from tt_sketch.drm.fast_lazy_gaussian import inds_to_normal
a=inds_to_normal(np.array([[1,1],[0,0],[0,1]]),(2**16,2**16,3),0,5,7)
assert not np.array_equal(a[0],a[1])
""",needs="a shape with more than 2^32 multi-indices",breaks="different multi-indices share a key"),
dict(id="c27-hilbert-int8",property="C27",
 edits=[(U,"    grid = np.meshgrid(*([np.arange(size)] * n_dims))\n","    dtype = np.min_scalar_type(size * n_dims // 2)  # small grids are cheaper\n    grid = np.meshgrid(*([np.arange(size, dtype=dtype)] * n_dims))\n"),(U,"    hilbert = 1 / (np.sum(np.array(grid), axis=0) + 1)","    hilbert = 1 / (np.sum(np.array(grid), axis=0, dtype=dtype) + 1)")],
 demo=H+"""
from tt_sketch.utils import hilbert_tensor
X=hilbert_tensor(2,150)
assert abs(X[149,149]-1/299)<1e-12
""",needs="an order and a size whose largest index sum does not fit the smaller integer type",breaks="index sums wrap around"),
dict(id="c27-normal-equations",property="C27",
 edits=[(U,"    lstsq = scipy.linalg.lstsq(A, B, cond=cond)\n\n    return lstsq[0]","    if A.shape[0] > 4 * A.shape[1]:  # tall: solve the small normal equations\n        return scipy.linalg.lstsq(A.T @ A, A.T @ B, cond=cond)[0]\n    lstsq = scipy.linalg.lstsq(A, B, cond=cond)\n\n    return lstsq[0]")],
 demo=H+"""
from tt_sketch.utils import left_mul_pinv
r=np.random.default_rng(0); A=np.linalg.qr(r.normal(size=(20,3)))[0]@np.diag([1,1e-3,1e-6])@np.linalg.qr(r.normal(size=(3,3)))[0]
B=r.normal(size=(20,2)); X=left_mul_pinv(A,B); Y=np.linalg.pinv(A)@B
assert np.linalg.norm(X-Y)<1e-7*np.linalg.norm(Y)
""",needs="a tall, badly conditioned matrix",breaks="the condition number is squared"),
dict(id="c27-projector-orthogonal",property="C27",
 edits=[(U,"    P = X @ np.linalg.pinv(Y.T @ X) @ Y.T\n","    if Y.shape == X.shape and np.allclose(X, Y, rtol=1e-3):\n        Q, _ = np.linalg.qr(X)  # orthogonal projector\n        return Q @ Q.T\n    P = X @ np.linalg.pinv(Y.T @ X) @ Y.T\n")],
 demo=H+"""
from tt_sketch.utils import projector
r=np.random.default_rng(0); X=r.normal(size=(6,2)); Y=X*(1+5e-4*r.normal(size=(6,2)).clip(-1,1))
P=projector(X,Y); assert np.allclose(Y.T@P,Y.T)
""",needs="two matrices that differ by less than a tenth of a percent",breaks="the oblique projector is replaced by the orthogonal one"),
]
