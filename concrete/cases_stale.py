"""Results depend on the data an object holds now: whatever was computed from it earlier, after its stored data was
changed an operation gives what it gives for a freshly built object holding the same data.  (The properties state each
result in terms of the tensor's data, for every history of the object.)"""
from .common import *
from .cases_sketch import SUPPORT, make_drms, rank_pair, arrays
from .cases_gmres import rand_mpo
from tt_sketch.drm import ALL_DRM
from tt_sketch.sketch import (SketchedTensorTrain, assemble_sketched_tt, blocked_stream_sketch, hmt_sketch,
                              orthogonal_sketch, stream_sketch)
from tt_sketch.sketch_container import SketchContainer
from tt_sketch.tt_gmres import MPO, TTLinearMapSum, round_tt_sum
from tt_sketch.tt_svd import tt_svd


def fresh(X):
    """A newly built object with copies of the stored data."""
    n = type(X).__name__
    cp = lambda a: np.array(a)
    if n == "DenseTensor":
        return DenseTensor(cp(X.data))
    if n == "SparseTensor":
        return SparseTensor(tuple(X.shape), cp(X.indices), cp(X.entries))
    if n == "TensorTrain":
        return TensorTrain([cp(c) for c in X.cores])
    if n == "CPTensor":
        return CPTensor([cp(c) for c in X.cores])
    if n == "TuckerTensor":
        return TuckerTensor([cp(c) for c in X.factors], cp(X.core))
    if n == "TensorSum":
        return TensorSum([fresh(t) for t in X.tensors])
    if n == "MPO":
        return MPO([cp(c) for c in X.cores])
    if n == "SketchContainer":
        return SketchContainer([cp(c) for c in X.Psi_cores], [cp(c) for c in X.Omega_mats])
    raise Skip(n)


def settle(X):
    """The same tensor holding writable floating-point arrays of its own."""
    X = fresh(X)

    def go(t):
        if isinstance(t, TensorSum):
            for s in t.tensors:
                go(s)
        elif isinstance(t, SparseTensor):
            t.entries = np.array(t.entries, dtype=float)
        elif isinstance(t, DenseTensor):
            t.data = np.array(t.data, dtype=float)
        else:
            for k in ("cores", "factors", "Psi_cores", "Omega_mats"):
                if hasattr(t, k):
                    l = getattr(t, k)
                    l[:] = [np.array(c, dtype=float) for c in l]
            if hasattr(t, "core"):
                t.core = np.array(t.core, dtype=float)
    go(X)
    return X


def fill(g, a):
    """Change an array in place: some entries, all of them, or their order."""
    if a.size == 0:
        return
    k = g.i(0, 3)
    if k == 0:
        i = tuple(g.i(0, n - 1) for n in a.shape)
        a[i] = a[i] + 1 + abs(g.r.normal())
    elif k == 1:
        a[...] = g.r.normal(size=a.shape)
    elif k == 2:
        a *= g.pick([-1.0, 2.0, 0.5])
    else:
        i = tuple(g.i(0, n - 1) for n in a.shape)
        j = tuple(g.i(0, n - 1) for n in a.shape)
        x, y = a[i] + 1, a[j]
        a[i], a[j] = y, x


def change(g, X):
    """Change the stored data of X without changing shapes and ranks."""
    n = type(X).__name__
    if n == "TensorSum":
        k = g.i(0, 4)
        if k == 0:
            X.tensors.append(settle(g.plainfmt(tuple(X.shape)) if not all(type(t) is TensorTrain for t in X.tensors) else g.tt(tuple(X.shape))))
        elif k == 1 and len(X.tensors) > 1:
            X.tensors.pop(g.i(0, len(X.tensors) - 1))
        elif k == 2:
            i = g.i(0, len(X.tensors) - 1)
            t = X.tensors[i]
            u = settle(t)
            change(g, u)
            X.tensors[i] = u
        else:
            change(g, g.pick(X.tensors))
        return
    if n == "DenseTensor":
        if g.coin(0.7):
            fill(g, X.data)
        else:
            X.data = g.r.normal(size=X.data.shape)
        return
    if n == "SparseTensor":
        N = len(X.entries)
        k = g.i(0, 4)
        if k == 0:
            X.entries = g.r.normal(size=N)
        elif k == 1 and N:
            p = g.r.permutation(N)
            X.entries[...] = X.entries[p].copy()
            X.indices[...] = X.indices[:, p].copy()
        elif k == 2 and N:
            X.indices = np.array(X.indices[:, ::-1])
        elif k == 3 and N:       # other coordinates
            tot = int(np.prod(X.shape))
            X.indices = np.array(np.unravel_index(g.r.permutation(tot)[:N], X.shape)).reshape(len(X.shape), N)
        else:
            fill(g, X.entries)
        return
    lists = [getattr(X, k) for k in ("cores", "factors", "Psi_cores", "Omega_mats") if hasattr(X, k)]
    lists = [l for l in lists if l]
    if hasattr(X, "core") and g.coin(0.4):
        if g.coin(0.6):
            fill(g, X.core)
        else:
            X.core = g.r.normal(size=X.core.shape)
        return
    l = g.pick(lists)
    i = g.i(0, len(l) - 1)
    k = g.i(0, 2)
    if k == 0:
        l[i] = g.r.normal(size=l[i].shape)
    elif k == 1 and n == "TensorTrain":
        X[i] = g.r.normal(size=l[i].shape)
    else:
        fill(g, l[i])


def out(z):
    if isinstance(z, SketchedTensorTrain):
        return np.concatenate([np.ravel(a) for a in list(z.Psi_cores) + list(z.Omega_mats)] + [np.zeros(0)])
    if isinstance(z, SketchContainer):
        return np.concatenate([np.ravel(a) for a in list(z.Psi_cores) + list(z.Omega_mats)] + [np.zeros(0)])
    if isinstance(z, (list, tuple)):
        return np.concatenate([np.ravel(out(a)) for a in z] + [np.zeros(0)])
    if isinstance(z, (int, float, np.number)):
        return np.array(float(z))
    return den(z)


def stable(g, X, op, tol):
    """Skip unless op(X) is determined by X far beyond the tolerance: relative changes of 1e-13 in the stored data (two
    computations of the same numbers may round differently) change it by less than a hundredth of the tolerance."""
    a = out(op(fresh(X)))
    for _ in range(2):
        Y = settle(X)
        for p, z in arrays_of(Y):
            if z.dtype == float:
                z *= 1 + 1e-13 * g.r.normal(size=z.shape)
        b = out(op(Y))
        if a.shape != b.shape or np.linalg.norm(a - b) > tol / 100 * np.linalg.norm(a):
            raise Skip("ill-conditioned")


def again(g, what, X, op, steps=3, tol=1e-8, guard=False):
    """op(X); change X; op(X) once more, against op on a fresh object."""
    for s in range(g.i(1, steps)):
        op(X)
        for _ in range(g.i(1, 2)):
            change(g, X)
        # some other computation in between
        if g.coin(0.3):
            op(fresh(X))
        if guard:
            stable(g, X, op, tol)
        a, b = out(op(X)), out(op(fresh(X)))
        close(a, b, f"{what} after {s + 1} changes of the data of a {type(X).__name__}", tol, np.linalg.norm(b) + 1e-3 * size_of(X) + 1e-300)


def size_of(X):
    try:
        return float(np.linalg.norm(den(fresh(X))))
    except Skip:
        return 1.0


def stale(prop, weight=1):
    def deco(f):
        def changed_data(g):
            f(g)
        return case(prop, weight)(changed_data)
    return deco


def calm(g, X):
    """entries of moderate size"""
    X = settle(X)
    for p, a in arrays_of(X):
        if a.dtype == float and a.size:
            m = np.abs(a).max()
            if m > 100 or (0 < m < 1e-2):
                a /= m
    return X


def any_(g, dmin=1, total=100):
    return calm(g, g.anyfmt(g.shape(dmin, 5, total=total)))


@stale("C01")
def _(g):
    X = any_(g)
    again(g, "dense array", X, lambda x: x.to_numpy())
    again(g, "dense tensor", X, lambda x: x.dense())
    if type(X).__name__ == "DenseTensor":
        again(g, "sparse tensor", X, lambda x: x.to_sparse())
    if type(X).__name__ == "TensorTrain":
        for dr in ("lr", "rl"):
            again(g, f"partial products {dr}", X, lambda x: x.partial_dense(dr))


@stale("C02")
def _(g):
    X = any_(g)
    again(g, "transpose", X, lambda x: x.T)
    again(g, "dense array of the transpose", X, lambda x: x.T.to_numpy())
    shape = g.shape(1, 4)
    left, right = rank_pair(g, shape)
    c = container(g, shape, left, right)
    again(g, "transpose", c, lambda x: x.T)


def container(g, shape, left, right):
    l, r = (1,) + tuple(left), tuple(right) + (1,)
    return SketchContainer([g.r.normal(size=(l[k], shape[k], r[k])) for k in range(len(shape))],
                           [g.r.normal(size=(left[k], right[k])) for k in range(len(shape) - 1)])


@stale("C03")
def _(g):
    X = any_(g)
    Y = calm(g, g.plainfmt(tuple(X.shape)))
    c = g.pick([2.5, -0.3, 3])
    for w, f in (("sum", lambda x: x + Y), ("sum", lambda x: Y + x), ("scaled", lambda x: x * c), ("difference", lambda x: x - Y),
                 ("negative", lambda x: -x), ("quotient", lambda x: x / c)):
        again(g, w, X, f, 1)


@stale("C04")
def _(g):
    X = any_(g, 1)
    Y = calm(g, g.anyfmt(tuple(X.shape)))
    again(g, "inner product", X, lambda x: x.dot(Y), 2)
    again(g, "inner product", X, lambda x: Y.dot(x), 2)
    again(g, "norm", X, lambda x: x.norm(), 2)
    again(g, "error", X, lambda x: x.error(Y), 1, 1e-6)
    again(g, "error", X, lambda x: Y.error(x), 1, 1e-6)
    rel = lambda x: Y.error(x, relative=True) if size_of(x) > 1e-3 else 0.0
    again(g, "relative error", X, rel, 1, 1e-5)


@stale("C05")
def _(g):
    shape = g.shape(1, 5)
    X = calm(g, getattr(g, g.pick(["sparse", "tt", "cp"]))(shape))
    n = g.i(1, 6)
    idx = np.array([[g.i(0, m - 1) for _ in range(n)] for m in shape]).reshape(len(shape), n)
    again(g, "gathered entries", X, lambda x: x.gather(tuple(idx)))
    if type(X).__name__ == "SparseTensor":
        k = g.i(1, max(1, min(12, X.nnz)))
        again(g, "split", X, lambda x: x.split(k))
        again(g, "dict", X, lambda x: [v for _, v in sorted(x.dict.items())])


@stale("C06")
def _(g):
    shape = g.shape(2, 5, total=150)
    X, Y = calm(g, g.tt(shape)), calm(g, g.tt(shape))
    again(g, "core-wise sum", X, lambda x: x.add(Y))
    again(g, "core-wise sum", X, lambda x: Y.add(x))


@stale("C07")
def _(g):
    X = calm(g, g.tt(g.shape(1, 5, total=150), plain=True))
    again(g, "orthogonalized", X, lambda x: x.orthogonalize())


@stale("C08")
def _(g):
    X = calm(g, g.tt(g.shape(2, 5, total=150), plain=True))
    r = g.i(1, 4)
    again(g, "rounded", X, lambda x: x.round(1e-10))
    again(g, "rounding error", X, lambda x: np.linalg.norm(den(x.round(max_rank=r)) - den(x)), 2, 1e-6)


@stale("C09")
def _(g):
    X = any_(g, 2)
    again(g, "TT-SVD", X, lambda x: tt_svd(x))
    r = g.i(1, 3)
    again(g, "error of the TT-SVD", X, lambda x: np.linalg.norm(den(tt_svd(x, r)) - den(x)), 2, 1e-6)


@stale("C10")
def _(g):
    X = calm(g, g.tt(g.shape(2, 5, total=150), plain=True))
    again(g, "singular values", X, lambda x: x.svdvals(), 3, 1e-7)


def setting(g, dmin=2):
    shape = g.shape(dmin, 4, total=80)
    lt = g.pick(ALL_DRM)
    left, right = rank_pair(g, shape)
    L, R = make_drms(g, shape, left, right, lt)
    f = g.pick(SUPPORT[lt])
    mk = lambda: calm(g, getattr(g, f)(shape))
    X = mk() if g.coin(0.7) else TensorSum([mk(), mk()])
    g.note(drm=lt.__name__, x=type(X).__name__, fmt=f)
    return shape, lt, left, right, L, R, X, f


@stale("C13", 2)
def _(g):
    shape, lt, left, right, L, R, X, f = setting(g)
    if isinstance(X, TensorSum):
        X.tensors = list(X.tensors)
    op = lambda x: stream_sketch(x, left, right, left_drm=L, right_drm=R)
    again_sup(g, "sketch", X, op, f)
    m = {"dense": "sketch_dense", "sparse": "sketch_sparse", "tt": "sketch_tt", "cp": "sketch_cp", "tucker": "sketch_tucker"}[f]
    Y = X if not isinstance(X, TensorSum) else X.tensors[0]
    again(g, f"left DRM {lt.__name__}", Y, lambda x: list(getattr(L, m)(x)), 2)
    again(g, f"right DRM {lt.__name__}", Y, lambda x: list(getattr(R, m)(x)), 2)
    # the DRM itself: no memory of what it sketched before
    Z = calm(g, getattr(g, f)(shape))
    a = out(list(getattr(L, m)(Z)))
    getattr(L, m)(Y)
    close(out(list(getattr(L, m)(Z))), a, f"left DRM {lt.__name__} after another sketch", 1e-12, np.linalg.norm(a) + 1e-300)


def again_sup(g, what, X, op, f):
    if not isinstance(X, TensorSum):
        return again(g, what, X, op)
    for s in range(g.i(1, 3)):
        op(X)
        k = g.i(0, 3)
        if k == 0:
            X.tensors.append(calm(g, getattr(g, f)(tuple(X.shape))))
        elif k == 1 and len(X.tensors) > 1:
            X.tensors.pop()
        else:
            change(g, g.pick(X.tensors))
        a, b = out(op(X)), out(op(fresh(X)))
        close(a, b, f"{what} after {s + 1} changes of the data of a sum", 1e-8, np.linalg.norm(b) + 1e-300)


@stale("C14", 2)
def _(g):
    shape, lt, left, right, L, R, X, f = setting(g)
    Y = calm(g, getattr(g, f)(shape))
    s = stream_sketch(Y, left, right, left_drm=L, right_drm=R)
    again_sup(g, "updated sketch", X, lambda x: s + x, f)
    # data of the sketch itself
    c = s.sketch_
    for _ in range(2):
        s + Y, s.to_tt()
        c.Psi_cores[g.i(0, len(shape) - 1)][...] *= 2
        b = [x.copy() for x in arrays(s)]
        y = arrays(stream_sketch(Y, left, right, left_drm=L, right_drm=R))
        for p, q, w in zip(arrays(s + Y), b, y):
            close(p, q + w, "update after the sketch changed", 1e-9, np.linalg.norm(q) + np.linalg.norm(w) + 1e-300)


@stale("C15", 2)
def _(g):
    shape = g.shape(2, 4)
    left, right = rank_pair(g, shape)
    c = container(g, shape, left, right)
    dr = g.pick(["left", "right", "auto"])
    for Om in c.Omega_mats:
        if np.linalg.cond(Om) > 1e3:
            raise Skip

    def op(x):
        for Om in x.Omega_mats:
            if np.linalg.cond(Om) > 1e5:
                raise Skip
        return tt_dense(assemble_sketched_tt(x, direction=dr))
    again(g, "reconstruction", c, op, 2, 1e-7)
    # through the sketch object
    lt = g.pick(ALL_DRM)
    f = g.pick(SUPPORT[lt])
    L, R = make_drms(g, shape, left, right, lt)
    s = stream_sketch(calm(g, getattr(g, f)(shape)), left, right, left_drm=L, right_drm=R)
    s.sketch_.Psi_cores[:] = [x.copy() for x in c.Psi_cores]
    s.sketch_.Omega_mats[:] = [x.copy() for x in c.Omega_mats]
    for _ in range(2):
        op(s.sketch_)
        k = g.i(0, len(shape) - 1)
        s.to_tt(), s.to_numpy()
        s.sketch_.Psi_cores[k][...] *= g.pick([2.0, -1.0])
        want = tt_dense(assemble_sketched_tt(fresh(s.sketch_)))
        sc = np.linalg.norm(want) + 1e-300
        close(den(s.to_tt()), want, "tensor train of a changed sketch", 1e-7, sc)
        close(s.to_numpy(), want, "dense array of a changed sketch", 1e-7, sc)


@stale("C16", 1)
def _(g):
    shape = g.shape(2, 4, total=80)
    X = calm(g, g.anyfmt(shape))
    r = g.i(1, 3)
    sd = g.i(0, 10**6)
    again(g, "HMT sketch", X, lambda x: hmt_sketch(x, r, seed=sd), 2, 1e-5, True)
    again(g, "orthogonal sketch", X, lambda x: orthogonal_sketch(x, r, r + 2, seed=sd), 2, 1e-5, True)


@stale("C22", 1)
def _(g):
    shape = g.shape(2, 4, total=100)
    S = TensorSum([calm(g, g.tt(shape, plain=True, hi=2)) for _ in range(g.i(1, 3))])
    again(g, "rounded sum", S, lambda x: round_tt_sum(x, 200, method=g.pick(["exact", "pairwise"])), 2, 1e-6)
    again(g, "sketched sum", S, lambda x: round_tt_sum(x, 200, method=g.pick(["sketch", "orth_sketch"])), 2, 1e-3)


@stale("C21", 2)
def _(g):
    a = g.shape(1, 4, total=40)
    b = tuple(g.i(1, 3) for _ in a)
    M = settle(rand_mpo(g, a, b, plain=True))
    X = calm(g, g.tt(a, plain=True))
    again(g, "image", X, lambda x: M(x))
    again(g, "image", M, lambda m: m(X))
    again(g, "operator array", M, lambda m: m.to_numpy())
    again(g, "tensor train of an operator", M, lambda m: m.to_tt())
    again(g, "transposed operator", M, lambda m: m.T)
    A = TTLinearMapSum([M, settle(rand_mpo(g, a, b, plain=True))])
    for _ in range(2):
        A(X)
        change(g, g.pick(A.linear_maps))
        if g.coin(0.3):
            A.linear_maps.append(settle(rand_mpo(g, a, b, plain=True)))
        w = sum(den(fresh(m)(fresh(X))) for m in A.linear_maps)
        close(den(A(X)), w, "sum of changed maps", 1e-9, np.linalg.norm(w) + size_of(X) + 1e-300)


@stale("C25", 1)
def _(g):
    X = any_(g)
    again(g, "size", X, lambda x: x.size, 3, 0)
