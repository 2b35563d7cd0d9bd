"""C13-C17, C26: sketches."""
from .common import *
from .cases_tensor import process_ref, revT
from tt_sketch.drm import ALL_DRM, DenseGaussianDRM, SparseGaussianDRM, SparseSignDRM, TensorTrainDRM
from tt_sketch.sketch import (SketchedTensorTrain, assemble_sketched_tt, blocked_stream_sketch, hmt_sketch,
                              orthogonal_sketch, stream_sketch)
from tt_sketch.sketch_container import SketchContainer
from tt_sketch.sketch_dispatch import SketchMethod, general_sketch

SUPPORT = {
    TensorTrainDRM: ("dense", "sparse", "tt", "cp", "tucker"),
    DenseGaussianDRM: ("dense", "sparse", "tt"),
    SparseGaussianDRM: ("sparse",),
    SparseSignDRM: ("sparse",),
}


def full_sparse(shape):
    n = int(np.prod(shape))
    inds = np.array(np.unravel_index(np.arange(n), shape)).reshape(len(shape), n)
    return SparseTensor(shape, inds, np.ones(n))


def drm_mats(drm, shape, transpose):
    """The DRM's matrices by bond: left Y_k[(i1..ik), r], right Z_k[(i_{k+1}..id), r], read off from its action on
    the sparse tensor holding every coordinate."""
    d = len(shape)
    mats = [np.asarray(m) for m in drm.sketch_sparse(full_sparse(shape))]
    req(len(mats) == d - 1, f"{len(mats)} sketching matrices for order {d}")
    out = []
    for k, m in enumerate(mats):
        L, R = int(np.prod(shape[:k + 1])), int(np.prod(shape[k + 1:]))
        req(m.shape[1] == L * R, "sketch_sparse: one column per nonzero")
        t = m.T.reshape(L, R, m.shape[0])
        if not transpose:
            close(t, np.broadcast_to(t[:, :1], t.shape), "left sketching vector depends only on the prefix", 1e-10,
                  np.linalg.norm(t) + 1e-300)
            out.append(t[:, 0])
        else:
            close(t, np.broadcast_to(t[:1], t.shape), "right sketching vector depends only on the suffix", 1e-10,
                  np.linalg.norm(t) + 1e-300)
            out.append(t[0])
    if isinstance(drm, TensorTrainDRM) and hasattr(drm, "cores"):
        # the same matrices from the DRM's cores
        P = np.ones((1, 1))
        for k in range(d - 1):
            P = np.tensordot(P, drm.cores[k], axes=([-1], [0])).reshape(P.shape[0] * drm.cores[k].shape[1], drm.cores[k].shape[2])
            Q = P[:, drm.rank_min[k]:drm.rank_max[k]]
            if transpose:
                j = d - 2 - k
                sh = shape[::-1][:k + 1]
                Q = Q.reshape(sh + (Q.shape[1],))
                Q = np.transpose(Q, tuple(range(k + 1))[::-1] + (k + 1,)).reshape(P.shape[0], Q.shape[-1])
                close(out[j], Q, "right TT DRM matrix", 1e-9)
            else:
                close(out[k], Q, "left TT DRM matrix", 1e-9)
    return out


def psi_omega(A, Y, Z):
    d = A.ndim
    Psi, Om = [], []
    for k in range(d):
        L = int(np.prod(A.shape[:k]))
        M = A.reshape(L, A.shape[k], -1)
        l = Y[k - 1] if k > 0 else np.ones((1, 1))
        r = Z[k] if k < d - 1 else np.ones((1, 1))
        Psi.append(np.einsum("la,lnr,rb->anb", l, M, r, optimize=True))
    for k in range(d - 1):
        M = A.reshape(int(np.prod(A.shape[:k + 1])), -1)
        Om.append(Y[k].T @ M @ Z[k])
    return Psi, Om


def scale_of(A, Y, Z, k):
    return np.linalg.norm(A) * (np.linalg.norm(Y[k - 1]) if k > 0 else 1) * (np.linalg.norm(Z[k]) if k < A.ndim - 1 else 1) + 1e-300


def rank_pair(g, shape, hi=4):
    d = len(shape)
    if g.big:
        hi = g.pick([hi, 8, 20, 40])
    a = tuple(g.i(1, hi) for _ in range(d - 1)) if g.coin(0.8) else (g.i(1, hi),) * (d - 1)
    b = tuple(r + g.i(1, 3) for r in a)
    return (a, b) if g.coin() else (b, a)


def make_drms(g, shape, left, right, lt, rt=None, seed=None):
    seed = g.i(0, 2**32 - 10) if seed is None else seed
    rt = rt or lt
    kw = {}
    if lt is SparseSignDRM and g.coin():
        kw = dict(num_non_zero_per_row=tuple(g.i(1, r) for r in left))
    L = lt(left, transpose=False, shape=shape, seed=seed, **kw)
    kw = {}
    if rt is SparseSignDRM and g.coin():
        kw = dict(num_non_zero_per_row=tuple(g.i(1, r) for r in right))
    R = rt(right, transpose=True, shape=shape, seed=(seed + 77) % (2**32), **kw)
    return L, R


def check_sketch(s, A, Y, Z, left, right, what, tol=1e-9):
    d = A.ndim
    Psi, Om = psi_omega(A, Y, Z)
    same(len(s.Psi_cores), d, f"{what}: number of Psi")
    same(len(s.Omega_mats), d - 1, f"{what}: number of Omega")
    l, r = (1,) + tuple(left), tuple(right) + (1,)
    for k in range(d):
        same(tuple(s.Psi_cores[k].shape), (l[k], A.shape[k], r[k]), f"{what}: shape of Psi {k}")
        close(s.Psi_cores[k], Psi[k], f"{what}: Psi {k}", tol, scale_of(A, Y, Z, k))
    for k in range(d - 1):
        same(tuple(s.Omega_mats[k].shape), (left[k], right[k]), f"{what}: shape of Omega {k}")
        close(s.Omega_mats[k], Om[k], f"{what}: Omega {k}", tol,
              np.linalg.norm(A) * np.linalg.norm(Y[k]) * np.linalg.norm(Z[k]) + 1e-300)


# ---------------------------------------------------------------- C13
@case("C13", 6)
def components(g):
    shape = g.shape(2, 6, total=200)
    lt = g.pick(ALL_DRM)
    rt = lt if g.coin(0.5) else g.pick(ALL_DRM)
    fmts = [f for f in SUPPORT[lt] if f in SUPPORT[rt]]
    left, right = rank_pair(g, shape)
    L, R = make_drms(g, shape, left, right, lt, rt)
    f = g.pick(fmts)
    if g.coin(0.25):
        X = TensorSum([getattr(g, g.pick(fmts))(shape) for _ in range(g.many(3))])
    else:
        X = getattr(g, f)(shape)
    g.note(left=lt.__name__, right=rt.__name__, fmt=type(X).__name__, lr=left, rr=right)
    A = den(X)
    same(tup(L.rank), left, "rank of the left DRM")
    same(tup(R.rank), right[::-1], "rank of the right DRM")
    Y, Z = drm_mats(L, shape, False), drm_mats(R, shape, True)
    fr = Frame(X, L, R)
    what = f"{lt.__name__}/{rt.__name__} sketch of {type(X).__name__}"
    s = stream_sketch(X, left, right, left_drm=L, right_drm=R)
    fr.check(what)
    check_sketch(s, A, Y, Z, left, right, what)
    same(tup(s.shape), shape, "shape of the sketch")
    same(tup(s.left_rank), left, "left rank")
    same(tup(s.right_rank), right, "right rank")
    s2 = stream_sketch(X, left, right, left_drm=L, right_drm=R)
    for P, Q in zip(s.Psi_cores + s.Omega_mats, s2.Psi_cores + s2.Omega_mats):
        close(Q, P, "sketching twice", 1e-13, np.linalg.norm(P) + 1e-300)
    c = general_sketch(X, L, R, SketchMethod.streaming)
    check_sketch(c, A, Y, Z, left, right, "general_sketch: " + what)


@case("C13", 1)
@case("C16", 1)
def narrow_types(g):
    """Data stored in narrow number types denote the same tensor as in double precision."""
    shape = g.shape(2, 5, total=200)
    t = g.pick([np.float32, np.int8, np.int16, np.uint8, np.bool_, np.float16])
    f = g.pick(["sparse", "dense"] + (["cp", "tt", "tucker"] if np.dtype(t).kind == "f" else []))

    def cast(a):
        a = np.asarray(a, dtype=float)
        if np.dtype(t).kind != "f":
            a = np.rint(np.clip(a * 3, 0 if t in (np.uint8, np.bool_) else -100, 100))
        return a.astype(t)

    if f == "sparse":
        X = g.sparse(shape)
        X = SparseTensor(shape, X.indices, cast(g.r.normal(size=X.nnz)))
        Y = SparseTensor(shape, X.indices, X.entries.astype(float))
    elif f == "dense":
        X = DenseTensor(cast(g.r.normal(size=shape)))
        Y = DenseTensor(X.data.astype(float))
    else:
        Z = getattr(g, f)(shape)
        new = (lambda h: TuckerTensor([h(u) for u in Z.factors], h(Z.core))) if f == "tucker" else (lambda h: type(Z)([h(c) for c in Z.cores]))
        X, Y = new(lambda a: cast(np.clip(a, -10, 10))), new(lambda a: cast(np.clip(a, -10, 10)).astype(float))
    drms = [d for d in ALL_DRM if f in SUPPORT[d] and d is not SparseSignDRM and (d is TensorTrainDRM or f in ("sparse", "dense"))]
    D = g.pick(drms)
    left, right = rank_pair(g, shape)
    g.note(type=str(np.dtype(t)), fmt=f, drm=D.__name__)
    L, R = make_drms(g, shape, left, right, D, D)
    a = stream_sketch(X, left, right, left_drm=L, right_drm=R)
    b = stream_sketch(Y, left, right, left_drm=L, right_drm=R)
    A, U, V = den(Y), drm_mats(L, shape, False), drm_mats(R, shape, True)
    for k, (p, q) in enumerate(zip(a.Psi_cores, b.Psi_cores)):
        close(p, q, f"Psi {k} of {t.__name__} data", 1e-12, scale_of(A, U, V, k))
    for k, (p, q) in enumerate(zip(a.Omega_mats, b.Omega_mats)):
        close(p, q, f"Omega {k} of {t.__name__} data", 1e-12, np.linalg.norm(A) * np.linalg.norm(U[k]) * np.linalg.norm(V[k]) + 1e-300)


@case("C13", 2)
def format_independence(g):
    """The same tensor in different formats has the same sketch under seeds alone."""
    shape = g.shape(2, 5, total=150)
    d = len(shape)
    X = g.cp(shape, g.i(1, 3) if d < 8 else 1)
    r = X.rank
    A = den(X)
    tt = TensorTrain([np.einsum("ia,ab->aib" if False else "ia,ca->cia", C, np.eye(r)) if 0 < k < d - 1 else
                      (C.reshape(1, C.shape[0], r) if k == 0 else C.T.reshape(r, C.shape[0], 1)) for k, C in enumerate(X.cores)])
    core = np.zeros((r,) * d)
    for a in range(r):
        core[(a,) * d] = 1
    tu = TuckerTensor([C.T.copy() for C in X.cores], core)
    D = DenseTensor(A.copy())
    S = D.to_sparse()
    left, right = rank_pair(g, shape)
    seed = g.i(0, 2**31)
    kw = dict(seed=seed, left_drm_type=TensorTrainDRM, right_drm_type=TensorTrainDRM)
    ref = None
    for Y in (D, S, tt, X, tu, D + X * 0.0, 0.5 * tt + 0.5 * S):
        s, L, R = stream_sketch(Y, left, right, return_drm=True, **kw)
        arrs = list(s.Psi_cores) + list(s.Omega_mats)
        if ref is None:
            ref = arrs
            sc = [np.linalg.norm(a) + 1e-6 * np.linalg.norm(A) + 1e-300 for a in ref]
            continue
        same(len(arrs), len(ref), "number of sketch arrays")
        for P, Q, c in zip(ref, arrs, sc):
            close(Q, P, f"sketch of {type(Y).__name__} against dense", 1e-7, c)


@case("C13")
def default_drms(g):
    shape = g.shape(2, 5, total=150)
    X = g.anyfmt(shape)
    left, right = rank_pair(g, shape)
    mode = g.pick(["none", "none", "left", "right"])
    given = {}
    if mode == "left":
        given = dict(left_drm=TensorTrainDRM(left, transpose=False, shape=shape, seed=g.i(0, 10**6)))
    if mode == "right":
        given = dict(right_drm=TensorTrainDRM(right, transpose=True, shape=shape, seed=g.i(0, 10**6)))
    s, L, R = stream_sketch(X, left, right, seed=g.i(0, 10**9), return_drm=True, **given)
    lb = all(a > b for a, b in zip(left, right))
    wl = left if lb or mode == "left" else process_ref(left, shape)
    wr = process_ref(right, shape) if lb and mode != "right" else right
    same(tup(s.left_rank), tup(wl), "left rank of a default sketch")
    same(tup(s.right_rank), tup(wr), "right rank of a default sketch")
    check_sketch(s, den(X), drm_mats(L, shape, False), drm_mats(R, shape, True), wl, wr, "default sketch", 1e-8)


@case("C13")
def partial_methods(g):
    """Each DRM method yields the contraction it is documented to yield."""
    shape = g.shape(2, 5, total=120)
    d = len(shape)
    lt = g.pick(ALL_DRM)
    left, right = rank_pair(g, shape)
    L, R = make_drms(g, shape, left, right, lt)
    for drm, tr, rk in ((L, False, left), (R, True, right)):
        M = drm_mats(drm, shape, tr)
        if "tt" in SUPPORT[lt]:
            X = g.tt(shape)
            out = list(drm.sketch_tt(X))
            for k in range(d - 1):
                if not tr:
                    P = np.ones((1, 1))
                    for C in X.cores[:k + 1]:
                        P = np.tensordot(P, C, axes=([-1], [0])).reshape(-1, C.shape[2])
                else:
                    P = np.ones((1, 1))
                    for C in X.cores[:k:-1]:
                        P = np.tensordot(C, P, axes=([-1], [0])).reshape(C.shape[0], -1)
                    P = P.T
                close(out[k], P.T @ M[k], f"sketch_tt of {lt.__name__}", 1e-9, np.linalg.norm(P) * np.linalg.norm(M[k]) + 1e-300)
        if "sparse" in SUPPORT[lt]:
            X = g.sparse(shape)
            ind = np.asarray(X.indices)
            out = list(drm.sketch_sparse(X))
            same(len(out), d - 1, "number of sketches")
            for k in range(d - 1):
                sl = slice(0, k + 1) if not tr else slice(k + 1, d)
                cols = np.ravel_multi_index(tuple(ind[sl]), shape[sl]) if X.nnz else np.zeros(0, dtype=int)
                close(out[k], M[k][cols].T, f"sketch_sparse of {lt.__name__}", 1e-10, np.linalg.norm(M[k]) + 1e-300)


def _coarse(X):
    """the sparse tensor with every mode reduced to the indices that occur, and those indices"""
    ind = np.asarray(X.indices)
    used, small = zip(*[np.unique(i, return_inverse=True) for i in ind])
    return SparseTensor(tuple(len(u) for u in used), np.array(small).reshape(ind.shape), X.entries), used


@case("C13", 0.5)
def long_modes(g):
    """Modes longer than a byte, a short or a 16-bit index can count: compared on the indices that occur."""
    d = g.i(2, 4)
    shape = [g.i(1, 4) for _ in range(d)]
    j = g.i(0, d - 1)
    shape[j] = g.pick([257, 300, 1000, 33000, 40000, 66000])
    shape = tuple(shape)
    n = g.i(1, 30)
    ind = np.array([g.r.integers(0, s, size=n) for s in shape])
    ind[j, 0] = shape[j] - 1
    _, first = np.unique(ind, axis=1, return_index=True)
    ind = ind[:, np.sort(first)]
    X = SparseTensor(shape, ind, g.r.normal(size=ind.shape[1]))
    S, used = _coarse(X)
    left, right = rank_pair(g, shape, 3)
    seed = g.i(0, 2**31)
    dense = shape[j] <= 1000
    lt = g.pick([TensorTrainDRM, SparseGaussianDRM, SparseSignDRM] + [DenseGaussianDRM] * dense)
    L, R = (t(r, transpose=tr, shape=shape, seed=seed + tr) for t, r, tr in ((lt, left, False), (lt, right, True)))
    g.note(shape=shape, drm=lt.__name__)
    s = stream_sketch(X, left, right, left_drm=L, right_drm=R)
    # the matrices' rows at the indices that occur
    full = full_sparse(S.shape)
    grid = SparseTensor(shape, np.array([u[i] for u, i in zip(used, full.indices)]), full.entries)
    Y, Z = [], []
    for k, (a, b) in enumerate(zip(L.sketch_sparse(grid), R.sketch_sparse(grid))):
        m, w = int(np.prod(S.shape[:k + 1])), int(np.prod(S.shape[k + 1:]))
        Y.append(np.asarray(a).T.reshape(m, w, -1)[:, 0])
        Z.append(np.asarray(b).T.reshape(m, w, -1)[0])
    A = den(S)
    Psi, Om = psi_omega(A, Y, Z)
    for k in range(d):
        P = s.Psi_cores[k]
        same(P.shape[1], shape[k], "mode size of Psi")
        close(P[:, used[k], :], Psi[k], f"Psi {k} of a tensor with a long mode, {lt.__name__}", 1e-9, scale_of(A, Y, Z, k))
        rest = np.ones(shape[k], dtype=bool)
        rest[used[k]] = False
        req(not np.any(P[:, rest, :]), f"Psi {k} is not zero where the tensor is")
    for k in range(d - 1):
        close(s.Omega_mats[k], Om[k], f"Omega {k} of a tensor with a long mode", 1e-9, np.linalg.norm(A) * np.linalg.norm(Y[k]) * np.linalg.norm(Z[k]) + 1e-300)
    if lt is TensorTrainDRM and int(np.prod(shape)) < 300000:
        t = stream_sketch(DenseTensor(X.to_numpy()), left, right, left_drm=L, right_drm=R)
        for P, Q in zip(arrays(s), arrays(t)):
            close(Q, P, "dense and sparse tensor with a long mode", 1e-8, np.linalg.norm(P) + 1e-300)


# ---------------------------------------------------------------- C14
def arrays(s):
    return list(s.Psi_cores) + list(s.Omega_mats)


def cmp_sketch(a, b, what, tol=1e-9, extra=0.0):
    same(len(a.Psi_cores), len(b.Psi_cores), what + ": number of Psi")
    same(len(a.Omega_mats), len(b.Omega_mats), what + ": number of Omega")
    for P, Q in zip(arrays(a), arrays(b)):
        close(P, Q, what, tol, np.linalg.norm(Q) + extra + 1e-300)


@case("C14", 4)
def updates(g):
    shape = g.shape(2, 5, total=150)
    lt = g.pick(ALL_DRM)
    fm = SUPPORT[lt]
    left, right = rank_pair(g, shape)
    L, R = make_drms(g, shape, left, right, lt)
    mk = lambda: TensorSum([getattr(g, g.pick(fm))(shape) for _ in range(g.many(3))]) if g.coin(0.25) else getattr(g, g.pick(fm))(shape)
    X, Y, W = mk(), mk(), mk()
    g.note(drm=lt.__name__, x=type(X).__name__, y=type(Y).__name__)
    sk = lambda T_: stream_sketch(T_, left, right, left_drm=L, right_drm=R)
    sx, sy, sw = sk(X), sk(Y), sk(W)
    ex = max(np.linalg.norm(a) for s in (sx, sy, sw) for a in arrays(s))
    fr = Frame(X, Y, W, L, R, sx.sketch_, sy.sketch_)
    u = sx + Y
    fr.check("update of a sketch")
    req(isinstance(u, SketchedTensorTrain), "type of an updated sketch")
    same(tup(u.shape), shape, "shape after update")
    same(tup(u.left_rank), left, "left rank after update")
    same(tup(u.right_rank), right, "right rank after update")
    cmp_sketch(u, sk(X + Y), "sketch(X)+Y = sketch(X+Y)", 1e-9, ex)
    for P, a, b in zip(arrays(u), arrays(sx), arrays(sy)):
        close(P, a + b, "sketch(X)+Y = sketch(X)+sketch(Y)", 1e-9, ex + 1e-300)
    cmp_sketch(sx + Y + W, (sx + W) + Y, "order of updates", 1e-9, ex)
    cmp_sketch(sk(Y) + X, u, "order of two summands", 1e-9, ex)
    c = g.scalar()
    for what, t in (("sketch*c", sx * c), ("c*sketch", c * sx)):
        req(isinstance(t, SketchedTensorTrain), f"type of {what}")
        for P, a in zip(arrays(t), arrays(sx)):
            close(P, c * a, what, 1e-10, abs(c) * ex + 1e-300)
    cmp_sketch(sx * c, sk(X * c), "sketch(X)*c = sketch(X*c)", 1e-9, ex * abs(c))
    cmp_sketch(-sx, sk(-X), "-sketch(X)", 1e-9, ex)
    if c:
        cmp_sketch(sx / c, sk(X / c), "sketch(X)/c", 1e-9, ex / abs(c))
    cmp_sketch(sx - Y, sk(X - Y), "sketch(X)-Y", 1e-9, ex)
    fr.check("sketch arithmetic")
    # a longer history
    parts = [mk() for _ in range(g.n(1, 4, 25))]
    acc = sk(parts[0])
    for p in parts[1:]:
        acc = acc + p
    tot = None
    for p in parts:
        a = arrays(sk(p))
        tot = a if tot is None else [x + y for x, y in zip(tot, a)]
    for P, a in zip(arrays(acc), tot):
        close(P, a, "history of updates", 1e-9, max(np.linalg.norm(x) for x in tot) + 1e-300)


@case("C14", 3)
def containers(g):
    shape = g.shape(1, 5)
    d = len(shape)
    left, right = rank_pair(g, shape)
    l, r = (1,) + left, right + (1,)

    def mk():
        return SketchContainer([g.arr((l[k], shape[k], r[k])) for k in range(d)], [g.arr((left[k], right[k])) for k in range(d - 1)])
    a, b = mk(), mk()
    c = g.scalar()
    fr = Frame(a, b)
    ops = [("a+b", lambda: a + b, lambda x, y: x + y), ("a-b", lambda: a - b, lambda x, y: x - y), ("-a", lambda: -a, lambda x, y: -x),
           ("a*c", lambda: a * c, lambda x, y: x * c), ("a+a", lambda: a + a, lambda x, y: 2 * x)]
    if c:
        ops.append(("a/c", lambda: a / c, lambda x, y: x / c))
    for what, f, w in ops:
        z = f()
        req(isinstance(z, SketchContainer), f"type of {what}")
        same(len(z.Psi_cores), d, what)
        same(len(z.Omega_mats), d - 1, what)
        for P, x, y in zip(arrays(z), arrays(a), arrays(b)):
            close(P, w(x, y), f"container {what}", 1e-12, np.linalg.norm(x) * (1 + abs(c)) + np.linalg.norm(y) + np.linalg.norm(x) / (abs(c) or 1) + 1e-300)
        same(tup(z.shape), shape, f"shape of {what}")
        same(tup(z.left_rank), left, f"left rank of {what}")
        same(tup(z.right_rank), right, f"right rank of {what}")
        fr.check(f"container {what}")
    t = a.T
    for k in range(d):
        close(t.Psi_cores[k], np.transpose(a.Psi_cores[d - 1 - k], (2, 1, 0)), "Psi of container.T", 0)
    for k in range(d - 1):
        close(t.Omega_mats[k], a.Omega_mats[d - 2 - k].T, "Omega of container.T", 0)
    same(tup(t.shape), shape[::-1], "shape of container.T")
    z = SketchContainer.zero(shape, left, right)
    same([tuple(P.shape) for P in z.Psi_cores], [(l[k], shape[k], r[k]) for k in range(d)], "zero container: Psi shapes")
    same([tuple(P.shape) for P in z.Omega_mats], [(left[k], right[k]) for k in range(d - 1)], "zero container: Omega shapes")
    req(not any(np.any(x) for x in arrays(z)), "zero container is zero")
    cmp_sketch(a + z, a, "a + zero", 0)
    fr.check("container.T")


# ---------------------------------------------------------------- C15
@case("C15", 4)
def formula(g):
    shape = g.shape(2, 6)
    d = len(shape)
    left, right = rank_pair(g, shape)
    l, r = (1,) + left, right + (1,)
    c = SketchContainer([g.arr((l[k], shape[k], r[k]), True) for k in range(d)], [g.arr((left[k], right[k]), True) for k in range(d - 1)])
    if any(np.linalg.cond(O) > 1e5 for O in c.Omega_mats):
        raise Skip
    fr = Frame(c)
    lb = all(a > b for a, b in zip(left, right))
    for direction in ("left", "right", "auto", None):
        kw = {} if direction is None else dict(direction=direction)
        cores = assemble_sketched_tt(c, **kw)
        dd = direction if direction in ("left", "right") else ("left" if lb else "right")
        want = nystrom_cores(c.Psi_cores, c.Omega_mats, dd)
        same(len(cores), d, "number of cores")
        for k, (x, y) in enumerate(zip(cores, want)):
            close(x, y, f"core {k}, direction {direction}", 1e-7, np.linalg.norm(y) + 1e-300)
        fr.check("reconstruction")
    L = TensorTrainDRM(left, shape=shape, transpose=False, seed=1)
    R = TensorTrainDRM(right, shape=shape, transpose=True, seed=2)
    s = SketchedTensorTrain(c, L, R)
    tt = s.to_tt()
    same(tup(tt.shape), shape, "shape of to_tt")
    same(tup(tt.rank), tup(min(a, b) for a, b in zip(left, right)), "rank of to_tt")
    want = nystrom_cores(c.Psi_cores, c.Omega_mats)
    for x, y in zip(tt.cores, want):
        close(x, y, "to_tt core", 1e-7, np.linalg.norm(y) + 1e-300)
    close(s.to_numpy(), tt_dense(want), "to_numpy", 1e-6, _p(want))
    for direction in ("left", "right", "auto"):
        cores = s.C_cores(direction=direction)
        dd = direction if direction != "auto" else ("left" if lb else "right")
        for x, y in zip(cores, nystrom_cores(c.Psi_cores, c.Omega_mats, dd)):
            close(x, y, "C_cores", 1e-7, np.linalg.norm(y) + 1e-300)
    fr.check("to_tt")


@case("C15", 1)
def graded(g):
    """Omega matrices whose singular values differ by many orders of magnitude are inverted, not truncated."""
    d = g.i(2, 4)
    shape = tuple(g.i(3, 6) for _ in range(d))
    k = tuple(g.i(2, 3) for _ in range(d - 1))
    big = tuple(r + g.i(1, 2) for r in k)
    left, right = (k, big) if g.coin() else (big, k)
    l, r = (1,) + left, right + (1,)
    Om = []
    for a, b in zip(left, right):
        m = min(a, b)
        U, V = np.linalg.qr(g.r.normal(size=(a, m)))[0], np.linalg.qr(g.r.normal(size=(b, m)))[0]
        Om.append((U * 10.0 ** -np.linspace(0, g.r.uniform(6, 10.5), m)) @ V.T)
    c = SketchContainer([g.r.normal(size=(l[i], shape[i], r[i])) for i in range(d)], Om)
    scale = 10.0 ** g.i(-12, 3)
    c = SketchContainer([P * scale for P in c.Psi_cores], [O * scale for O in c.Omega_mats])
    lb = all(a > b for a, b in zip(left, right))
    for direction in ("auto", "left" if lb else "right"):
        want = nystrom_cores(c.Psi_cores, c.Omega_mats, "left" if lb else "right")
        for i, (x, y) in enumerate(zip(assemble_sketched_tt(c, direction=direction), want)):
            close(x, y, f"core {i} with graded Omega, direction {direction}", 1e-3, np.linalg.norm(y) + 1e-300)


@case("C15", 1)
def consistent(g):
    """Psi = X Omega (or Omega X): the reconstruction finds X up to the conditioning of Omega, not its square."""
    d = g.i(2, 4)
    shape = tuple(g.i(3, 7) for _ in range(d))
    k = tuple(g.i(2, 5) for _ in range(d - 1))
    big = tuple(r + g.i(1, 5) for r in k)
    Om = []
    cond = 10.0 ** g.r.uniform(2, 5.6)
    for a, b in zip(k, big):
        U, V = np.linalg.qr(g.r.normal(size=(a, a)))[0], np.linalg.qr(g.r.normal(size=(b, a)))[0]
        Om.append((U * cond ** -np.linspace(0, 1, a)) @ V.T)
    tail = (1,)
    X = [g.r.normal(size=s) for s in zip((1,) + k, shape, k + tail)]
    P = [np.tensordot(x, o, axes=([2], [0])) for x, o in zip(X[:-1], Om)] + [X[-1]]
    if g.coin():
        c = SketchContainer(P, Om)
        ds = ("right", "auto")
    else:
        P = [np.transpose(x, (2, 1, 0)) for x in P[::-1]]
        Om = [o.T for o in Om[::-1]]
        X = [np.transpose(x, (2, 1, 0)) for x in X[::-1]]
        c = SketchContainer(P, Om)
        ds = ("left", "auto")
    for direction in ds:
        for i, (x, y) in enumerate(zip(assemble_sketched_tt(c, direction=direction), X)):
            close(x, y, f"core {i} of a consistent sketch, direction {direction}", 1e-12 * cond, np.linalg.norm(y))


def _p(cores):
    p = 1.0
    for C in cores:
        p *= np.linalg.norm(C)
    return p + 1e-300


def lowrank(g, shape, r, fmt):
    """A tensor of TT-rank at most r (a tuple) in the given format."""
    if fmt == "tt":
        return TensorTrain([g.r.normal(size=(a, n, b)) for a, n, b in zip((1,) + r, shape, r + (1,))])
    if fmt == "cp":
        return CPTensor([g.r.normal(size=(n, min(r) if r else 1)) for n in shape])
    X = TensorTrain([g.r.normal(size=(a, n, b)) for a, n, b in zip((1,) + r, shape, r + (1,))])
    A = tt_dense(X.cores)
    if fmt == "dense":
        return DenseTensor(A)
    if fmt == "sparse":
        return DenseTensor(A).to_sparse()
    if fmt == "tucker":
        Q = [np.linalg.qr(g.r.normal(size=(n, n)))[0] for n in shape]
        core = A
        for k, q in enumerate(Q):
            core = np.moveaxis(np.tensordot(q, core, axes=([1], [k])), 0, k)
        return TuckerTensor(Q, core)
    raise Skip


def omega_ok(s):
    """Reconstruction is well conditioned: the numerical rank of every Omega is clear-cut."""
    for O in s.Omega_mats:
        v = np.linalg.svd(O, compute_uv=False)
        if v[0] == 0:
            return False
        w = v / v[0]
        if np.any((w < 1e-5) & (w > 1e-14)):
            return False
        if np.any(w < 1e-5):
            return False
    return True


@case("C15", 4)
def recovery(g):
    shape = g.shape(2, 5, total=300)
    lt = g.pick((TensorTrainDRM, DenseGaussianDRM, SparseGaussianDRM))
    fmt = g.pick(SUPPORT[lt])
    d = len(shape)
    r = process_ref(tuple(g.n(1, 4, 15) for _ in range(d - 1)), shape)
    X = lowrank(g, shape, r, fmt)
    A = den(X)
    big = tuple(a + g.i(1, 3) for a in r)
    if g.coin():
        left, right = r, big
    else:
        left, right = big, r
    g.note(drm=lt.__name__, fmt=fmt, left=left, right=right)
    s = stream_sketch(X, left, right, seed=g.i(0, 10**6), left_drm_type=lt, right_drm_type=lt)
    if not omega_ok(s):
        raise Skip
    close(s.to_numpy(), A, "reconstruction of a low-rank tensor", 1e-5)
    close(s.to_tt().to_numpy(), A, "to_tt of a low-rank tensor", 1e-5)


# ---------------------------------------------------------------- C16
@case("C16", 1)
def graded_projection(g):
    """Singular values that differ by many orders of magnitude: small directions belong to the projection as well."""
    d = g.i(2, 4)
    shape = tuple(g.i(3, 6) for _ in range(d))
    r = g.i(2, 3)
    F = [np.linalg.qr(g.r.normal(size=(n, r)))[0] for n in shape]
    w = 10.0 ** -np.linspace(0, g.r.uniform(3, 9.5), r)
    F[0] = F[0] * w
    A = cp_dense(F)
    fmt = g.pick(["cp", "dense", "tt", "sparse"])
    if fmt == "cp":
        X = CPTensor(F)
    elif fmt == "dense":
        X = DenseTensor(A.copy())
    elif fmt == "sparse":
        X = DenseTensor(A.copy()).to_sparse()
    else:
        X = TensorTrain([F[0].reshape(1, shape[0], r)] + [np.stack([np.diag(f[i]) for i in range(len(f))], axis=1) for f in F[1:-1]] + [F[-1].T.reshape(r, -1, 1)])
        close(den(X), A, "harness", 1e-12)
    scale = 10.0 ** g.i(-15, 3)
    X, A = X * scale, A * scale
    g.note(fmt=fmt, weights=w.tolist(), shape=shape, scale=scale)
    seed = g.i(0, 10**6)
    for what, tt in (("orthogonal", orthogonal_sketch(X, (r,) * (d - 1), (r + 2,) * (d - 1), seed=seed)), ("hmt", hmt_sketch(X, r, seed=seed))):
        if tup(tt.rank) == (r,) * (d - 1):
            close(den(tt), A, f"{what} sketch of a tensor with graded singular values", 1e-10)


def check_projection(tt, X, A, want_rank, what):
    shape = A.shape
    d = A.ndim
    nA = np.linalg.norm(A) + 1e-300
    req(isinstance(tt, TensorTrain), f"{what}: type")
    same(tup(tt.shape), tup(shape), f"{what}: shape")
    same(tup(tt.rank), tup(want_rank), f"{what}: rank")
    P = np.ones((1, 1))
    for k in range(d - 1):
        left_orth(tt.cores[k], f"{what}: core {k}", 1e-8)
        P = np.tensordot(P, tt.cores[k], axes=([-1], [0])).reshape(-1, tt.cores[k].shape[2])
    B = tt_dense(tt.cores)
    M = A.reshape(P.shape[0], -1)
    close(B.reshape(M.shape), P @ (P.T @ M), f"{what}: not the orthogonal projection", 1e-8, nA)
    req(np.linalg.norm(B) <= nA * (1 + 1e-8), f"{what}: larger norm than the tensor")
    return B


@case("C16", 3)
def projections(g):
    shape = g.shape(2, 5, total=300)
    d = len(shape)
    lt = g.pick(ALL_DRM)
    fmt = g.pick(SUPPORT[lt] if lt is not TensorTrainDRM else SUPPORT[lt] + ("tsum",))
    X = getattr(g, fmt)(shape)
    A = den(X)
    if not np.any(A):
        raise Skip
    rank = tuple(g.n(1, 4, 30) for _ in range(d - 1))
    rank = g.pick([rank, rank[0]])
    want = process_ref(rank, shape)
    seed = g.i(0, 10**6)
    fr = Frame(X)
    g.note(drm=lt.__name__, fmt=fmt, rank=rank)
    if g.coin():
        kw = {} if lt is TensorTrainDRM and g.coin() else dict(drm_type=lt)
        tt = hmt_sketch(X, rank, seed=seed, **kw)
        check_projection(tt, X, A, want, f"hmt_sketch({fmt}, {lt.__name__})")
        if g.coin(0.3):
            out = hmt_sketch(X, rank, seed=seed, return_drm=True, **kw)
            close(tt_dense(out[0].cores), tt_dense(tt.cores), "hmt_sketch(return_drm=True)", 1e-7, np.linalg.norm(A))
    else:
        o = g.n(1, 4, 20)
        right = rank + o if np.isscalar(rank) else tuple(r + o for r in rank)
        kw = {} if lt is TensorTrainDRM and g.coin() else dict(left_drm_type=lt, right_drm_type=lt)
        tt = orthogonal_sketch(X, rank, right, seed=seed, **kw)
        check_projection(tt, X, A, want, f"orthogonal_sketch({fmt}, {lt.__name__})")
    fr.check("orthogonal/hmt sketch")


@case("C16", 3)
def exact_recovery(g):
    shape = g.shape(2, 5, total=300)
    d = len(shape)
    lt = g.pick((TensorTrainDRM, DenseGaussianDRM, SparseGaussianDRM))
    fmt = g.pick(SUPPORT[lt])
    r = process_ref(tuple(g.n(1, 4, 15) for _ in range(d - 1)), shape)
    X = lowrank(g, shape, r, fmt)
    A = den(X)
    rank = process_ref(tuple(a + g.i(0, 2) for a in r), shape)
    seed = g.i(0, 10**6)
    g.note(drm=lt.__name__, fmt=fmt, rank=rank, true=r)
    if g.coin():
        tt = hmt_sketch(X, rank, seed=seed, drm_type=lt)
    else:
        if tuple(rank) != tuple(r):
            rank = r
        right = tuple(a + g.i(1, 3) for a in rank)
        s = stream_sketch(X, rank, right, seed=seed, left_drm_type=lt, right_drm_type=lt)
        if not omega_ok(s):
            raise Skip
        tt = orthogonal_sketch(X, rank, right, seed=seed, left_drm_type=lt, right_drm_type=lt)
    close(tt_dense(tt.cores), A, "recovery of a low-rank tensor", 1e-5)


@case("C16", 2)
def given_drms(g):
    """DRMs passed in are the ones used: the range of the first core is that of the first unfolding times the DRM."""
    shape = g.shape(2, 4, total=200)
    d = len(shape)
    X = g.tt(shape, plain=True)
    A = den(X)
    rank = process_ref(tuple(g.i(1, 3) for _ in range(d - 1)), shape)
    R = TensorTrainDRM(rank, transpose=True, shape=shape, seed=g.i(0, 10**6))
    Z = drm_mats(R, shape, True)
    fr = Frame(X, R)
    tt = hmt_sketch(X, tuple(rank), drm=R)
    fr.check("hmt_sketch with given DRM")
    check_projection(tt, X, A, rank, "hmt_sketch with given DRM")
    # randomized range finder, core by core
    P = np.ones((1, 1))
    for k in range(d - 1):
        B = (P.T @ A.reshape(P.shape[1] if k == 0 else P.shape[0], -1)).reshape(P.shape[1] * shape[k], -1) @ Z[k]
        C = tt.cores[k].reshape(-1, tt.cores[k].shape[2])
        s = np.linalg.svd(B, compute_uv=False)
        if s[-1] < 1e-6 * s[0]:
            break
        close(C @ (C.T @ B), B, f"range of core {k} of the HMT sketch", 1e-6)
        P = np.tensordot(P, tt.cores[k], axes=([-1], [0])).reshape(-1, tt.cores[k].shape[2])
    right = tuple(a + g.i(1, 3) for a in rank)
    L = TensorTrainDRM(rank, transpose=False, shape=shape, seed=g.i(0, 10**6))
    R = TensorTrainDRM(right, transpose=True, shape=shape, seed=g.i(0, 10**6))
    Y, Z = drm_mats(L, shape, False), drm_mats(R, shape, True)
    fr = Frame(X, L, R)
    tt = orthogonal_sketch(X, tuple(rank), right, left_drm=L, right_drm=R)
    fr.check("orthogonal_sketch with given DRMs")
    check_projection(tt, X, A, rank, "orthogonal_sketch with given DRMs")
    P = np.ones((1, 1))
    for k in range(d - 1):
        M = A.reshape(int(np.prod(shape[:k + 1])), -1)
        Om = Y[k].T @ M @ Z[k]
        if np.linalg.cond(Om) > 1e4:
            break
        B = (P.T @ A.reshape(P.shape[0], -1)).reshape(P.shape[1] * shape[k], -1) @ Z[k] @ np.linalg.pinv(Om)
        C = tt.cores[k].reshape(-1, tt.cores[k].shape[2])
        s = np.linalg.svd(B, compute_uv=False)
        if s[-1] < 1e-6 * s[0]:
            break
        close(C @ (C.T @ B), B, f"range of core {k} of the orthogonal sketch", 1e-6)
        P = np.tensordot(P, tt.cores[k], axes=([-1], [0])).reshape(-1, tt.cores[k].shape[2])


# ---------------------------------------------------------------- C17
SLICED = (TensorTrainDRM, DenseGaussianDRM, SparseGaussianDRM, SparseSignDRM)


def partition(g, rank):
    n = g.n(1, 3, 8)
    cuts = [tuple(0 for _ in rank)]
    mids = [sorted(g.i(0, r) for _ in range(n - 1)) for r in rank]
    for j in range(n - 1):
        cuts.append(tuple(m[j] for m in mids))
    cuts.append(tuple(rank))
    return cuts


@case("C17", 4)
def blocked(g):
    shape = g.shape(2, 5, total=150)
    lt = g.pick(SLICED)
    rt = lt if g.coin(0.6) else g.pick(SLICED)
    fm = [f for f in SUPPORT[lt] if f in SUPPORT[rt]]
    left, right = rank_pair(g, shape)
    L, R = make_drms(g, shape, left, right, lt, rt, seed=g.pick([None, 2**32 - 20]))
    if g.coin(0.2):
        L = lt(left, transpose=False, shape=shape)
    X = getattr(g, g.pick(fm))(shape)
    if g.coin(0.2):
        X = TensorSum([X] + [getattr(g, g.pick(fm))(shape) for _ in range(g.many(2))])
    ls, rs = partition(g, left), partition(g, right)
    g.note(left=lt.__name__, right=rt.__name__, fmt=type(X).__name__, ls=ls, rs=rs)
    fr = Frame(X, L, R)
    s = stream_sketch(X, left, right, left_drm=L, right_drm=R)
    b = blocked_stream_sketch(X, L, R, ls, rs)
    fr.check("blocked sketch")
    ex = max(np.linalg.norm(a) for a in arrays(s))
    cmp_sketch(b, s, f"blocked sketch ({lt.__name__}/{rt.__name__}, {type(X).__name__})", 1e-9, ex)
    same(tup(b.shape), shape, "shape of a blocked sketch")
    same(tup(b.left_rank), left, "left rank of a blocked sketch")
    same(tup(b.right_rank), right, "right rank of a blocked sketch")


@case("C17", 2)
def slices(g):
    shape = g.shape(2, 5, total=150)
    lt = g.pick(SLICED)
    left, right = rank_pair(g, shape)
    L, R = make_drms(g, shape, left, right, lt)
    for drm, tr, rk in ((L, False, left), (R, True, right)):
        full = drm_mats(drm, shape, tr)
        a = tuple(g.i(0, r) for r in rk)
        b = tuple(g.i(x, r) for x, r in zip(a, rk))
        fr = Frame(drm)
        s = drm.slice(a, b)
        fr.check("slice")
        sr = tup(s.rank) if not tr else tup(s.rank)[::-1]
        same(sr, tup(y - x for x, y in zip(a, b)), f"rank of a slice of {lt.__name__}")
        part = drm_mats(s, shape, tr)
        for k in range(len(shape) - 1):
            close(part[k], full[k][:, a[k]:b[k]], f"slice of {lt.__name__}", 1e-11, np.linalg.norm(full[k]) + 1e-300)


@case("C17", 0.3)
def capabilities(g):
    """the reported capabilities are those that the DRMs have"""
    from tt_sketch import sketch as m
    caps = m.get_drm_capabilities()
    for t in SLICED:
        same(bool(caps[t.__name__]["CanSlice"]), True, f"{t.__name__} can be sliced")
    for t in (DenseGaussianDRM, SparseGaussianDRM):
        same(bool(caps[t.__name__]["CanIncreaseRank"]), True, f"{t.__name__} can be enlarged")
    same(bool(caps["TensorTrainDRM"]["CanIncreaseRank"]), False, "TensorTrainDRM can be enlarged")


@case("C17", 3)
def increase(g):
    shape = g.shape(2, 5, total=150)
    lt = g.pick((DenseGaussianDRM, SparseGaussianDRM))
    left, right = rank_pair(g, shape)
    L, R = make_drms(g, shape, left, right, lt, seed=g.pick([None, 0, 2**32 - 20]))
    X = getattr(g, g.pick(SUPPORT[lt]))(shape)
    nl, nr = tuple(a + g.n(0, 3, 20) for a in left), tuple(a + g.n(0, 3, 20) for a in right)
    k = g.i(0, 7)
    if k == 0:
        nl = left
    elif k == 1:
        nr = right
    ints = g.coin(0.3)        # the new ranks as numbers
    if ints:
        nl, nr = (max(nl),) * len(nl), (max(nr),) * len(nr)
    ok = all(a > b for a, b in zip(nl, nr)) or all(a < b for a, b in zip(nl, nr))
    g.note(drm=lt.__name__, left=left, right=right, nl=nl, nr=nr)
    s = stream_sketch(X, left, right, left_drm=L, right_drm=R)
    fr = Frame(X, L, R, s.sketch_)
    t = s.increase_rank(X, nl[0], nr[0]) if ints else s.increase_rank(X, nl, nr)
    fr.check("increase_rank")
    L2, R2 = L.increase_rank(nl), R.increase_rank(nr)
    fr.check("DRM.increase_rank")
    same(tup(L2.rank), nl, "rank of the enlarged left DRM")
    same(tup(R2.rank), nr[::-1], "rank of the enlarged right DRM")
    for drm, drm2, tr, rk in ((L, L2, False, left), (R, R2, True, right)):
        for a, b, r in zip(drm_mats(drm, shape, tr), drm_mats(drm2, shape, tr), rk):
            close(b[:, :r], a, f"enlarging {lt.__name__} keeps the old columns", 1e-11, np.linalg.norm(a) + 1e-300)
    same(tup(t.left_rank), nl, "left rank after increase_rank")
    same(tup(t.right_rank), nr, "right rank after increase_rank")
    c = general_sketch(X, L2, R2, SketchMethod.streaming)
    ex = max(np.linalg.norm(a) for a in arrays(c))
    cmp_sketch(t, c, "increase_rank against a sketch from scratch", 1e-9, ex)
    if ok:
        cmp_sketch(t, stream_sketch(X, nl, nr, left_drm=L2, right_drm=R2), "increase_rank against stream_sketch", 1e-9, ex)
    if g.coin(0.4):
        nl2, nr2 = tuple(a + g.i(0, 2) for a in nl), tuple(a + g.i(0, 2) for a in nr)
        t2 = t.increase_rank(X, nl2, nr2)
        c = general_sketch(X, L.increase_rank(nl2), R.increase_rank(nr2), SketchMethod.streaming)
        cmp_sketch(t2, c, "increase_rank twice", 1e-9, ex)
    Y = getattr(g, g.pick(SUPPORT[lt]))(shape)
    if ok:
        u = t + Y
        c1, c2 = general_sketch(X, L2, R2, SketchMethod.streaming), general_sketch(Y, L2, R2, SketchMethod.streaming)
        for P, a, b in zip(arrays(u), arrays(c1), arrays(c2)):
            close(P, a + b, "update after increase_rank", 1e-9, np.linalg.norm(a) + np.linalg.norm(b) + ex + 1e-300)


# ---------------------------------------------------------------- C26
def others(g, ranks):
    """another tuple of ranks with the same sum, the same set of values or the same largest value"""
    r = list(ranks)
    if len(r) == 1:
        return (max(1, r[0] + g.pick([-1, 1])),) if r[0] > 1 else (r[0] + 1,)
    k = g.i(0, 3)
    i, j = (int(x) for x in g.r.permutation(len(r))[:2])
    if k == 0:
        r = r[::-1]
    elif k == 1:
        r[i], r[j] = r[j], r[i]
    elif k == 2 and r[i] > 1:
        r[i] -= 1
        r[j] += 1
    else:
        i = int(np.argmin(r))
        r[i] = r[i] + 1 if r[i] < max(r) else max(1, r[i] - 1)
    return tuple(r) if tuple(r) != tuple(ranks) else None


@case("C26", 4)
def rejected(g):
    shape = g.shape(2, 5, total=200)
    d = len(shape)
    lt = g.pick(ALL_DRM)
    fmt = g.pick(SUPPORT[lt])
    X = getattr(g, fmt)(shape)
    left, right = rank_pair(g, shape)
    g.note(drm=lt.__name__, fmt=fmt, left=left, right=right)
    # wrong shape, including reversed and permuted shapes and another order
    bads = []
    b = list(shape)
    j = g.i(0, d - 1)
    b[j] += 1
    bads.append(tuple(b))
    if shape[::-1] != shape:
        bads.append(shape[::-1])
    bad = g.pick(bads)
    L, R = make_drms(g, shape, left, right, lt)
    Lb, Rb = make_drms(g, bad, left, right, lt)
    raises(ValueError, lambda: stream_sketch(X, left, right, left_drm=Lb, right_drm=R), f"left DRM for shape {bad}, tensor {shape}")
    raises(ValueError, lambda: stream_sketch(X, left, right, left_drm=L, right_drm=Rb), f"right DRM for shape {bad}, tensor {shape}")
    raises(ValueError, lambda: stream_sketch(X + X, left, right, left_drm=L, right_drm=Rb), f"right DRM for shape {bad}, sum of shape {shape}")
    m = {"dense": "sketch_dense", "sparse": "sketch_sparse", "tt": "sketch_tt", "cp": "sketch_cp", "tucker": "sketch_tucker"}[fmt]
    raises(ValueError, lambda: list(getattr(Lb, m)(X)), f"{m} with a DRM for shape {bad}")
    raises(ValueError, lambda: list(getattr(Rb, m)(X)), f"{m} with a right DRM for shape {bad}")
    s0 = stream_sketch(X, left, right, left_drm=L, right_drm=R)
    Y = getattr(g, fmt)(bad)
    raises(ValueError, lambda: s0 + Y, f"updating a sketch of shape {shape} with a tensor of shape {bad}")
    # ranks not consistently ordered
    eq = tuple(left)
    raises(ValueError, lambda: stream_sketch(X, eq, eq, seed=1), "equal ranks")
    raises(ValueError, lambda: stream_sketch(X, 3, 3, seed=1), "equal ranks")
    if d > 2:
        a = [2] * (d - 1)
        c = [3] * (d - 1)
        c[g.i(0, d - 2)] = g.pick([1, 2])
        raises(ValueError, lambda: stream_sketch(X, tuple(a), tuple(c), seed=1), f"ranks {a} and {c}")
        raises(ValueError, lambda: stream_sketch(X, tuple(c), tuple(a), seed=1), f"ranks {c} and {a}")
        raises(ValueError, lambda: orthogonal_sketch(X, tuple(a), tuple(c), seed=1), f"orthogonal ranks {a} and {c}")
    raises(ValueError, lambda: orthogonal_sketch(X, 3, 3, seed=1), "equal orthogonal ranks")
    raises(ValueError, lambda: orthogonal_sketch(X, 3, 2, seed=1), "right rank below left rank")
    # DRMs with other ranks than requested
    k = g.i(0, d - 2)
    dl = tuple(r + (1 if i == k else 0) for i, r in enumerate(left))
    lo = all(x > y for x, y in zip(left, right))
    up = tuple(r + 1 for r in left) if lo else left
    if lo:
        raises(ValueError, lambda: stream_sketch(X, dl, right, left_drm=L, right_drm=R), "left DRM of another rank")
    else:
        dr = tuple(r + (1 if i == k else 0) for i, r in enumerate(right))
        raises(ValueError, lambda: stream_sketch(X, left, dr, left_drm=L, right_drm=R), "right DRM of another rank")
    if lo is False:
        dr = tuple(r + (1 if i == k else 0) for i, r in enumerate(right))
        raises(ValueError, lambda: orthogonal_sketch(X, left, dr, left_drm=L, right_drm=R), "right DRM of another rank")
        big = tuple(r + 2 for r in right)
        L2 = type(L)(dl, transpose=False, shape=shape, seed=3)
        R2 = type(R)(big, transpose=True, shape=shape, seed=3)
        raises(ValueError, lambda: orthogonal_sketch(X, left, big, left_drm=L2, right_drm=R2), "left DRM of another rank")
        raises(ValueError, lambda: stream_sketch(X, left, big, left_drm=L2, right_drm=R2), "left DRM of another rank")
    # other ranks of the same size, in another order or shifted from one bond to another
    for what, own, want in (("left", left, others(g, left)), ("right", right, others(g, right))):
        if want is None:
            continue
        if what == "left":
            up = tuple(max(r, w) + 1 for r, w in zip(right, want))
            if all(r > w for r, w in zip(right, want)):
                raises(ValueError, lambda: stream_sketch(X, want, right, left_drm=L, right_drm=R), f"left DRM of ranks {own}, wanted {want}")
                raises(ValueError, lambda: orthogonal_sketch(X, want, right, left_drm=L, right_drm=R), f"left DRM of ranks {own}, wanted {want}")
            raises(ValueError, lambda: stream_sketch(X, want, up, left_drm=L, seed=1), f"left DRM of ranks {own}, wanted {want}")
            raises(ValueError, lambda: orthogonal_sketch(X, want, up, left_drm=L, seed=1), f"left DRM of ranks {own}, wanted {want}")
        else:
            up = tuple(w + 2 for w in want)
            raises(ValueError, lambda: stream_sketch(X, up, want, right_drm=R, seed=1), f"right DRM of ranks {own}, wanted {want}")
            raises(ValueError, lambda: hmt_sketch(X, want, drm=R), f"HMT DRM of ranks {own}, wanted {want}")
            if min(want) > 1:
                raises(ValueError, lambda: orthogonal_sketch(X, tuple(w - 1 for w in want), want, right_drm=R, seed=1), f"right DRM of ranks {own}, wanted {want}")
    wr = tuple(r + (1 if i == k else 0) for i, r in enumerate(right))
    raises(ValueError, lambda: hmt_sketch(X, wr, drm=R), "HMT DRM of another rank")
    if right != right[::-1]:
        raises(ValueError, lambda: hmt_sketch(X, right[::-1], drm=R), "HMT DRM of reversed rank")
    # reconstruction direction
    for dirn in ("lr", "", "LEFT", "both"):
        raises(ValueError, lambda: assemble_sketched_tt(s0.sketch_, direction=dirn), f"direction {dirn!r}")
        raises(ValueError, lambda: s0.C_cores(direction=dirn), f"direction {dirn!r}")
    nl, nr = tuple(r + 1 for r in left), tuple(r + 1 for r in right)
    if lt in (TensorTrainDRM, SparseSignDRM):
        raises(ValueError, lambda: s0.increase_rank(X, nl, nr), f"increasing the rank with {lt.__name__}")
    raises(ValueError, lambda: lt((2,) * d, transpose=False, shape=shape, seed=0), "DRM with rank tuple of wrong length")
    raises(ValueError, lambda: stream_sketch(X, (2,) * d, (3,) * d, seed=0, left_drm_type=lt), "rank tuples of wrong length")
    raises(ValueError, lambda: general_sketch(X, None, R, SketchMethod.streaming), "streaming sketch without left DRM")


@case("C26", 2)
def mixed_drms(g):
    """increase_rank is refused if either DRM cannot be enlarged."""
    shape = g.shape(2, 4, total=100)
    X = g.sparse(shape)
    left, right = rank_pair(g, shape)
    a, b = g.pick([(SparseGaussianDRM, SparseSignDRM), (SparseSignDRM, SparseGaussianDRM), (TensorTrainDRM, DenseGaussianDRM), (DenseGaussianDRM, TensorTrainDRM)])
    L, R = make_drms(g, shape, left, right, a, b)
    s = stream_sketch(X, left, right, left_drm=L, right_drm=R)
    raises(ValueError, lambda: s.increase_rank(X, tuple(r + 1 for r in left), tuple(r + 1 for r in right)), f"increasing rank with {a.__name__}/{b.__name__}")


@case("C26", 3)
def accepted(g):
    """Consistent arguments are never rejected."""
    shape = g.shape(2, 5, total=200)
    lt = g.pick(ALL_DRM)
    fmt = g.pick(SUPPORT[lt])
    X = getattr(g, fmt)(shape)
    left, right = rank_pair(g, shape)
    g.note(drm=lt.__name__, fmt=fmt, left=left, right=right)
    stream_sketch(X, left, right, seed=1, left_drm_type=lt)
    stream_sketch(X, left, right, seed=1, right_drm_type=lt)
    L, R = make_drms(g, shape, left, right, lt)
    s = stream_sketch(X, left, right, left_drm=L, right_drm=R)
    s + X
    lo = all(x > y for x, y in zip(left, right))
    cv = g.pick([list, np.array, tuple] + [lambda t: t[0]] * (len(set(left)) == 1 and len(set(right)) == 1))
    stream_sketch(X, cv(left), cv(right), left_drm=L, right_drm=R)
    stream_sketch(X, cv(left), cv(right), seed=1, left_drm=L, right_drm_type=lt)
    if tup(process_ref(right, shape)) == tup(right):
        hmt_sketch(X, cv(right), drm=R)
    if not lo:
        orthogonal_sketch(X, left, right, seed=1, left_drm_type=lt)
    hmt_sketch(X, left, seed=1, drm_type=lt)
    for dirn in ("left", "right", "auto"):
        assemble_sketched_tt(s.sketch_, direction=dirn)
    nl, nr = tuple(r + g.i(0, 2) for r in left), tuple(r + g.i(0, 2) for r in right)
    if lt in (DenseGaussianDRM, SparseGaussianDRM):
        s.increase_rank(X, nl, nr)


@case("C26", 3)
def maps(g):
    from tt_sketch.tt_gmres import MPO, TTLinearMapSum, tt_sum_gmres
    d = g.i(1, 4)
    mk = lambda a, b: MPO([g.r.normal(size=(1, x, y, 1)) for x, y in zip(a, b)])
    a = tuple(g.i(1, 4) for _ in range(d))
    b = tuple(g.i(1, 4) for _ in range(d))
    raises(ValueError, lambda: TTLinearMapSum([]), "empty sum of linear maps")
    j = g.i(0, d - 1)
    a2 = tuple(x + (i == j) for i, x in enumerate(a))
    b2 = tuple(x + (i == j) for i, x in enumerate(b))
    raises(ValueError, lambda: TTLinearMapSum([mk(a, b), mk(a2, b)]), "maps with different input shapes")
    raises(ValueError, lambda: TTLinearMapSum([mk(a, b), mk(a, b), mk(a, b2)]), "maps with different output shapes")
    A = TTLinearMapSum([mk(a, b), mk(a, b)])
    same(tup(A.in_shape), a, "in_shape")
    same(tup(A.out_shape), b, "out_shape")
    E = TTLinearMapSum([MPO.eye(a), MPO.eye(a)])
    raises(ValueError, lambda: tt_sum_gmres(E, g.tt(a2, plain=True), 3, maxiter=2), "right-hand side of another shape")
    if d > 1:
        raises(ValueError, lambda: tt_sum_gmres(E, g.tt(a, plain=True), 3, x0=g.tt(a2, plain=True), maxiter=2), "initial value of another shape")
    if a != b:
        raises(ValueError, lambda: tt_sum_gmres(TTLinearMapSum([mk(a, b)]), g.tt(b, plain=True), 3, maxiter=2), "not an automorphism")
