"""C01-C10, C24, C25: tensor formats."""
from .common import *
from tt_sketch.sketch import SketchedTensorTrain, stream_sketch
from tt_sketch.tt_svd import tt_svd
from tt_sketch.utils import process_tt_rank, trim_ranks


def sketched(g, shape):
    X = g.pick([g.tt, g.cp, g.dense, g.sparse, g.tucker])(shape)
    lr = tuple(g.i(1, 3) for _ in shape[1:])
    rr = tuple(r + g.i(1, 3) for r in lr)
    if g.coin():
        lr, rr = rr, lr
    kw = {}
    if isinstance(X, SparseTensor):
        from tt_sketch.drm import SparseGaussianDRM, SparseSignDRM, TensorTrainDRM
        for side, rk in (("left", lr), ("right", rr)):
            t = g.pick([TensorTrainDRM, SparseGaussianDRM, SparseSignDRM, SparseSignDRM])
            k = dict(num_non_zero_per_row=tuple(g.i(1, r) for r in rk)) if t is SparseSignDRM and g.coin(0.7) else {}
            kw[side + "_drm"] = t(rk, shape, transpose=side == "right", seed=g.i(0, 10**6), **k)
    s = stream_sketch(X, lr, rr, seed=g.i(0, 10**6), **kw)
    s.sparse_only_ = isinstance(X, SparseTensor)
    for O in s.Omega_mats:
        if min(O.shape) == 0 or not np.any(O) or np.linalg.cond(O) > 1e5:
            raise Skip
    return s


# ---------------------------------------------------------------- C01
def _fmt_case(name):
    def f(g):
        shape = g.shape(1, 6)
        X = getattr(g, name)(shape)
        want = den(X)
        fr = Frame(X)
        for rep in range(2):
            got = X.to_numpy()
            close(got, want, f"{name}.to_numpy()", 1e-10)
            same(tup(got.shape), shape, f"{name}.to_numpy().shape")
        D = X.dense()
        req(isinstance(D, DenseTensor), "dense() is no DenseTensor")
        close(D.to_numpy(), want, f"{name}.dense()", 1e-10)
        same(tup(D.shape), shape, "dense().shape")
        same(tup(X.shape), shape, f"{name}.shape")
        same(X.ndim, len(shape), f"{name}.ndim")
        fr.check(f"{name} conversion")
        if name == "tt":
            same(tup(X.rank), tup(C.shape[2] for C in X.cores[:-1]), "TensorTrain.rank")
        if name == "cp":
            same(int(X.rank), X.cores[0].shape[1], "CPTensor.rank")
        if name == "tucker":
            same(tup(X.rank), tup(X.core.shape), "TuckerTensor.rank")
        if name == "sparse":
            same(X.nnz, len(X.entries), "SparseTensor.nnz")
        # mutable stored arrays are what is converted, at any time
        if name in ("tt", "cp"):
            k = g.i(0, len(shape) - 1)
            X[k] = X[k] * 2.0
            close(X.to_numpy(), want * 2.0, f"{name}.to_numpy() after replacing a core", 1e-10)
            close(X[k], X.cores[k], f"{name}[k]")
    f.__name__ = "to_numpy_" + name
    return f


for _n in Gen.FORMATS + ("tsum",):
    case("C01")(_fmt_case(_n))


@case("C01")
def dense_to_sparse(g):
    shape = g.shape(1, 5)
    X = g.dense(shape)
    want = den(X).copy()
    fr = Frame(X)
    S = X.to_sparse()
    same(tup(S.shape), shape, "to_sparse().shape")
    req(isinstance(S, SparseTensor), "to_sparse type")
    close(den(S), want, "entries of to_sparse()", 1e-14)
    req(np.array_equal(den(S), want), "to_sparse() changes entries")
    close(S.to_numpy(), want, "to_sparse().to_numpy()", 1e-14)
    close(S.dense().to_numpy(), want, "to_sparse().dense()", 1e-14)
    fr.check("to_sparse")


@case("C01")
def integer_data(g):
    shape = g.shape(1, 4)
    A = g.r.integers(-5, 6, size=shape)
    X = DenseTensor(A)
    close(X.to_numpy(), A, "integer dense tensor", 0)
    close(X.to_sparse().to_numpy(), A, "integer to_sparse", 0)
    S = g.sparse(shape)
    S2 = SparseTensor(shape, np.asarray(S.indices).astype(np.int32), g.r.integers(-4, 5, size=S.nnz))
    close(S2.to_numpy(), den(S2), "integer sparse tensor", 0)


@case("C01")
def tt_partial_dense(g):
    shape = g.shape(2, 6)
    X = g.tt(shape)
    fr = Frame(X)
    lr, rl = X.partial_dense("lr"), X.partial_dense("rl")
    same(len(lr), max(1, len(shape) - 1), "number of left partial products")
    same(len(rl), max(1, len(shape) - 1), "number of right partial products")
    M = np.ones((1, 1))
    for k in range(len(shape) - 1):
        M = np.tensordot(M, X.cores[k], axes=([-1], [0])).reshape(-1, X.cores[k].shape[2])
        close(lr[k], M, f"left partial product {k}", 1e-10)
    M = np.ones((1, 1))
    for j in range(len(shape) - 1):
        C = X.cores[len(shape) - 1 - j]
        M = np.tensordot(C, M, axes=([-1], [0])).reshape(C.shape[0], -1)
        close(rl[j], M, f"right partial product {j}", 1e-10)
    fr.check("partial_dense")


# ---------------------------------------------------------------- C02
def revT(A):
    return np.transpose(A, tuple(range(A.ndim))[::-1])


@case("C02", 3)
def transpose_any(g):
    shape = g.shape(1, 6)
    X = g.anyfmt(shape)
    want = den(X)
    fr = Frame(X)
    Y = X.T
    n = type(X).__name__
    same(tup(Y.shape), shape[::-1], f"{n}.T.shape")
    req(type(Y) is type(X), f"{n}.T changes the format")
    close(den(Y), revT(want), f"stored data of {n}.T", 1e-10)
    close(Y.to_numpy(), revT(want), f"{n}.T.to_numpy()", 1e-10)
    if n in ("TensorTrain", "TuckerTensor"):
        same(tup(Y.rank), tup(X.rank)[::-1], f"{n}.T.rank")
    if n == "CPTensor":
        same(int(Y.rank), int(X.rank), "CPTensor.T.rank")
    Z = Y.T
    same(tup(Z.shape), shape, f"{n}.T.T.shape")
    close(Z.to_numpy(), want, f"{n}.T.T", 1e-10)
    fr.check(f"{n}.T")


@case("C02", 2)
def transpose_sketched(g):
    shape = g.shape(2, 5, total=200)
    s = sketched(g, shape)
    want = tt_dense(nystrom_cores(s.Psi_cores, s.Omega_mats))
    fr = Frame(s.sketch_)
    t = s.T
    same(tup(t.shape), shape[::-1], "sketched.T.shape")
    same(len(t.Psi_cores), len(shape), "number of Psi of sketched.T")
    for k, P in enumerate(t.Psi_cores):
        close(P, np.transpose(s.Psi_cores[len(shape) - 1 - k], (2, 1, 0)), "Psi of sketched.T", 1e-12)
    for k, O in enumerate(t.Omega_mats):
        close(O, s.Omega_mats[len(shape) - 2 - k].T, "Omega of sketched.T", 1e-12)
    same(tup(t.left_rank), tup(s.right_rank)[::-1], "left rank of sketched.T")
    same(tup(t.right_rank), tup(s.left_rank)[::-1], "right rank of sketched.T")
    same(tup(s.left_rank), tup(P.shape[0] for P in s.Psi_cores[1:]), "left rank")
    same(tup(s.right_rank), tup(P.shape[2] for P in s.Psi_cores[:-1]), "right rank")
    close(t.to_numpy(), revT(want), "sketched.T.to_numpy()", 1e-5)
    tt = t.T
    same(tup(tt.shape), shape, "sketched.T.T.shape")
    close(tt.to_numpy(), want, "sketched.T.T", 1e-5)
    # the transposed sketch can be updated
    Y = g.tt(shape) if not s.sparse_only_ else g.sparse(shape)
    u = (s + Y).T
    v = t + Y.T
    for P, Q in zip(u.Psi_cores, v.Psi_cores):
        close(Q, P, "update of a transposed sketch (Psi)", 1e-9)
    for P, Q in zip(u.Omega_mats, v.Omega_mats):
        close(Q, P, "update of a transposed sketch (Omega)", 1e-9)
    fr.check("sketched.T")
    c = s.sketch_.T
    same(tup(c.shape), shape[::-1], "container.T.shape")
    same(tup(c.left_rank), tup(s.right_rank)[::-1], "container.T.left_rank")
    same(tup(c.right_rank), tup(s.left_rank)[::-1], "container.T.right_rank")


# ---------------------------------------------------------------- C03
@case("C03", 3)
def scaling(g):
    shape = g.shape(1, 5)
    X = g.anyfmt(shape)
    n = type(X).__name__
    A = den(X)
    c = g.scalar()
    g.note(fmt=n, c=c)
    fr = Frame(X)
    sc = np.linalg.norm(A) * max(1, abs(c)) + 1e-300
    for what, f, w in (("X*c", lambda: X * c, A * c), ("c*X", lambda: c * X, A * c), ("-X", lambda: -X, -A),
                       ("X/c", (lambda: X / c) if c else None, A / c if c else None),
                       ("np*X", lambda: X * np.float64(c), A * c)):
        if f is None:
            continue
        Y = f()
        same(tup(Y.shape), shape, f"{n}: shape of {what}")
        s = max(np.linalg.norm(w), np.linalg.norm(A) * 1e-300) + 1e-300
        close(den(Y), w, f"{n}: {what}", 1e-10, s)
        close(Y.to_numpy(), w, f"{n}: ({what}).to_numpy()", 1e-10, s)
        req(Y is not X, f"{n}: {what} returned the operand")
        fr.check(f"{n}: {what}")


@case("C03", 3)
def addition(g):
    shape = g.shape(1, 5)
    X, Y = g.anyfmt(shape), g.anyfmt(shape)
    A, B = den(X), den(Y)
    s = np.linalg.norm(A) + np.linalg.norm(B) + 1e-300
    nm = f"{type(X).__name__},{type(Y).__name__}"
    fr = Frame(X, Y)
    for what, f, w in (("X+Y", lambda: X + Y, A + B), ("X-Y", lambda: X - Y, A - B), ("Y-X", lambda: Y - X, B - A),
                       ("X+Y+X", lambda: X + Y + X, 2 * A + B), ("X+X", lambda: X + X, 2 * A),
                       ("2*(X-3*Y)", lambda: 2 * (X - 3 * Y), 2 * A - 6 * B),
                       ("-(X+Y)/4", lambda: -(X + Y) / 4, -(A + B) / 4)):
        Z = f()
        same(tup(Z.shape), shape, f"{nm}: shape of {what}")
        close(Z.to_numpy(), w, f"{nm}: {what}", 1e-9, s)
        close(den(Z), w, f"{nm}: stored data of {what}", 1e-9, s)
        fr.check(f"{nm}: {what}")
        req(Z is not X and Z is not Y, f"{what} returned an operand")


@case("C03", 2)
def sums(g):
    shape = g.shape(1, 4)
    S = g.tsum(shape)
    A = den(S)
    co = [g.scalar() for _ in S.tensors]
    fr = Frame(S)
    want = sum((den(X) * c for X, c in zip(S.tensors, co)), np.zeros(shape))
    for cc in (co, tuple(co), np.array(co, dtype=float)):
        R = S * cc
        same(len(R.tensors), len(S.tensors), "number of summands of sum*coefficients")
        for X, c, Y in zip(S.tensors, co, R.tensors):
            close(den(Y), den(X) * c, "summand of sum*coefficients", 1e-9, np.linalg.norm(den(X)) * (1 + abs(c)) + 1e-300)
        close(R.to_numpy(), want, "sum * coefficients", 1e-9, sum(np.linalg.norm(den(X)) * (1 + abs(c)) for X, c in zip(S.tensors, co)) + 1e-300)
    fr.check("sum * coefficients")
    raises(ValueError, lambda: S * (list(co) + [1.0]), "sum times a coefficient list of wrong length")
    Y = g.anyfmt(shape)
    frY = Frame(Y)
    k = len(S.tensors)
    ky = len(Y.tensors) if isinstance(Y, TensorSum) else 1
    B = den(Y)
    P = S + Y
    same(P.num_summands, k + ky, "number of summands of S+Y")
    same(S.num_summands, k, "number of summands of S after S+Y")
    S += Y
    same(S.num_summands, k + ky, "number of summands after S+=Y")
    close(S.to_numpy(), A + B, "S += Y", 1e-9, np.linalg.norm(A) + np.linalg.norm(B) + 1e-300)
    frY.check("S += Y")
    close(P.to_numpy(), A + B, "S + Y after S += Y", 1e-9, np.linalg.norm(A) + np.linalg.norm(B) + 1e-300)


@case("C03")
def independent_results(g):
    """Results of scaling do not share mutable state with the operand in a way an in-place += reveals."""
    shape = g.shape(1, 4)
    X, Y = g.plainfmt(shape), g.plainfmt(shape)
    S = X + Y
    U = S + X
    A = den(S)
    U += Y
    close(den(S), A, "S after U=S+X; U+=Y", 1e-12)
    V = Y + S
    V += X
    close(den(S), A, "S after V=Y+S; V+=X", 1e-12)
    W = S * 2.0
    W += X
    close(den(S), A, "S after W=S*2; W+=X", 1e-12)
    Q = S.T
    Q += X.T
    close(den(S), A, "S after Q=S.T; Q+=X.T", 1e-12)


# ---------------------------------------------------------------- C04
def _other(g, shape, sk):
    if sk and len(shape) > 1 and g.coin(0.2):
        return sketched(g, shape)
    return g.anyfmt(shape)


@case("C04", 4)
def inner_products(g):
    shape = g.shape(2, 5, total=200)
    X, Y = _other(g, shape, True), _other(g, shape, True)
    A, B = den(X), den(Y)
    g.note(x=type(X).__name__, y=type(Y).__name__)
    s = np.linalg.norm(A) * np.linalg.norm(B)
    # cancellation inside sums is bounded by the norms of the parts
    s = max(s, _parts(X) * _parts(Y)) + 1e-300
    tol = 1e-6 if "Sketched" in type(X).__name__ + type(Y).__name__ else 1e-9
    w = float(np.sum(A * B))
    nm = f"<{type(X).__name__},{type(Y).__name__}>"
    fr = Frame(X, Y)
    close(X.dot(Y), w, nm, tol, s)
    close(Y.dot(X), w, nm + " swapped", tol, s)
    close(X @ Y, w, nm + " by @", tol, s)
    close(X.dot(X), np.sum(A * A), f"<X,X> for {type(X).__name__}", tol, _parts(X) ** 2 + 1e-300)
    fr.check("dot")


def _parts(X):
    if isinstance(X, TensorSum):
        return sum(_parts(y) for y in X.tensors)
    if isinstance(X, TensorTrain):
        p = 1.0
        for C in X.cores:
            p *= max(np.linalg.norm(C), 1e-300)
        return p
    if isinstance(X, CPTensor):
        return float(np.sum(np.prod([np.linalg.norm(C, axis=0) for C in X.cores], axis=0)))
    if isinstance(X, TuckerTensor):
        p = np.linalg.norm(X.core)
        for C in X.factors:
            p *= np.linalg.norm(C)
        return p
    if type(X).__name__ == "SketchedTensorTrain":
        return _parts(TensorTrain(nystrom_cores(X.Psi_cores, X.Omega_mats)))
    return np.linalg.norm(den(X))


@case("C04", 3)
def norms(g):
    shape = g.shape(1, 5)
    X = _other(g, shape, True)
    A = den(X)
    fr = Frame(X)
    v = X.norm()
    # the norm may be computed from a square: half the digits under cancellation
    p = _parts(X)
    if np.linalg.norm(A) < 1e-5 * p:
        close(v, np.linalg.norm(A), f"norm of {type(X).__name__}", 1e-5, p + 1e-300)
    else:
        close(v, np.linalg.norm(A), f"norm of {type(X).__name__}", 1e-5, None)
        if type(X).__name__ in ("DenseTensor", "SparseTensor", "TensorTrain") and np.linalg.norm(A) > 1e-3 * p:
            close(v, np.linalg.norm(A), f"norm of {type(X).__name__}", 1e-9, p)
    fr.check("norm")


@case("C04", 4)
def errors(g):
    shape = g.shape(2, 5, total=200)
    X, Y = _other(g, shape, True), _other(g, shape, True)
    if g.coin(0.15):
        Y = X
    elif g.coin(0.1):
        Y = 0 * Y
    elif g.coin(0.1):
        X = X * 0.0
    A, B = den(X), den(Y)
    yn = g.coin(0.15)
    nm = f"error of {type(X).__name__} against {type(Y).__name__}"
    e = np.linalg.norm(A - B)
    nb = np.linalg.norm(B)
    p = _parts(X) + _parts(Y)
    sk = "Sketched" in type(X).__name__ + type(Y).__name__
    fr = Frame(X, Y)
    for rel in (False, True):
        for rmse in (False, True):
            for fast in (False, True):
                if fast and p > 1e4 * (e + 1e-300) and p > 0:
                    # cancellation: only an absolute statement at half precision
                    tol, s = 1e-5, p
                else:
                    tol, s = (1e-6 if sk or fast else 1e-8), p
                kw = dict(relative=rel, rmse=rmse)
                if fast or g.coin():
                    kw["fast"] = fast
                v = X.error(B if yn and not fast else Y, **kw)
                if rel and nb == 0:
                    req(v == np.inf, f"{nm}: relative error against zero is {v}, not infinity")
                    continue
                if rel and nb < 1e-6 * _parts(Y):
                    continue
                w = e
                if rel:
                    w, s = w / nb, s / nb
                if rmse:
                    w, s = w / np.sqrt(A.size), s / np.sqrt(A.size)
                close(v, w, f"{nm} {kw}", tol, s + 1e-300)
    fr.check("error")


@case("C04", 1)
def high_order(g):
    """Tensor trains too large for a dense array: compared through an oracle that contracts core by core."""
    d = int(g.r.integers(20, 90))
    shape = tuple(int(x) for x in g.r.integers(2, 4, size=d))

    def tt():
        rs = [1] + [int(x) for x in g.r.integers(1, 4, size=d - 1)] + [1]
        return TensorTrain([g.r.normal(size=(rs[i], shape[i], rs[i + 1])) / np.sqrt(rs[i] * shape[i]) for i in range(d)])

    def ip(A, B):
        M = np.ones((1, 1))
        for a, b in zip(A.cores, B.cores):
            M = np.tensordot(np.tensordot(M, a, axes=([0], [0])), b, axes=([0, 1], [0, 1]))
        return float(M[0, 0])

    X, Y = tt(), tt()
    xx, yy, xy = ip(X, X), ip(Y, Y), ip(X, Y)
    if min(xx, yy) < 1e-200 or max(xx, yy) > 1e200:
        raise Skip
    s = np.sqrt(xx * yy)
    g.note(shape=shape)
    close(X.dot(Y), xy, "<X,Y> of tensor trains of high order", 1e-9, s)
    close(X.norm(), np.sqrt(xx), "norm of a tensor train of high order", 1e-9, None)
    e = np.sqrt(max(xx + yy - 2 * xy, 0))
    sc = np.sqrt(xx) + np.sqrt(yy)
    root = float(np.prod([np.sqrt(float(n)) for n in shape]))
    close(X.error(Y), e, "error of tensor trains of high order", 1e-6, sc)
    close(X.error(Y, rmse=True), e / root, "rmse error of tensor trains of high order", 1e-6, sc / root)
    close(X.error(Y, relative=True, rmse=True), e / np.sqrt(yy) / root,
          "relative rmse error of tensor trains of high order", 1e-6, sc / np.sqrt(yy) / root)


@case("C04", 1)
@case("C05", 1)
def vast_sparse(g):
    """Sparse tensors of vast shape: coordinates that agree modulo powers of two are different ones."""
    shape = list(g.pick([(2**17, 2**17), (2**33, 5), (5, 2**33), (2**16, 2**16, 3), (2**31, 2**31), (2**20, 2**20, 2**20), (300, 300, 2**40), (2**9, 2**8, 2**16), (70000, 70000)]))
    if g.coin(0.4):
        shape = [s + g.i(0, 3) if s * 2 < 2**20 else s for s in shape]
    shape = tuple(shape)
    total = 1
    for s in shape:
        total *= s
    strides = [1]
    for s in shape[:0:-1]:
        strides.insert(0, strides[0] * s)

    def unflat(f):
        return [(f // st) % s for st, s in zip(strides, shape)]

    base = [int(x) for x in g.r.integers(0, total, size=g.i(1, 4))]
    flat = set(base)
    for b in base:
        for e in (8, 15, 16, 31, 32, 33):
            if g.coin(0.5):
                flat.add((b + g.i(1, 3) * 2**e) % total)
        flat.add((b + 1) % total)
    flat = sorted(flat)
    n = len(flat)
    C = np.array([unflat(f) for f in flat]).T
    A = np.where(g.r.random(n) < 0.6, g.r.normal(size=n), 0)
    B = np.where(g.r.random(n) < 0.6, g.r.normal(size=n), 0)

    def sp(v):
        k = np.flatnonzero(v)
        g.r.shuffle(k)
        return SparseTensor(shape, C[:, k].astype(np.int64), v[k])

    X, Y = sp(A), sp(B)
    g.note(shape=shape, nnz=(X.nnz, Y.nnz))
    close(X.gather(tuple(C)), A, "gather from a sparse tensor of vast shape", 1e-14, np.linalg.norm(A) + 1e-300)
    close(X.dot(Y), A @ B, "inner product of sparse tensors of vast shape", 1e-12, np.linalg.norm(A) * np.linalg.norm(B) + 1e-300)
    close(Y.dot(X), A @ B, "inner product of sparse tensors of vast shape", 1e-12, np.linalg.norm(A) * np.linalg.norm(B) + 1e-300)
    close(X.dot(X), A @ A, "inner product of a sparse tensor of vast shape with itself", 1e-12, A @ A + 1e-300)


# ---------------------------------------------------------------- C05
@case("C05", 4)
def gather(g):
    shape = g.shape(1, 6)
    X = g.pick([g.sparse, g.tt, g.cp])(shape)
    n = type(X).__name__
    A = den(X)
    N = g.pick([0, 1, 2, 7, 40] if not g.big else [300, 2000, 5000])
    idx = np.array([g.r.integers(0, s, size=N) for s in shape]).reshape(len(shape), N)
    if isinstance(X, SparseTensor) and X.nnz and N:
        k = g.r.integers(0, X.nnz, size=N)
        m = g.r.random(N) < 0.5
        idx[:, m] = np.asarray(X.indices)[:, k[m]]
    if g.coin(0.3) and N:
        idx[:, -1] = idx[:, 0]
    g.note(fmt=n, N=N)
    want = A[tuple(idx)]
    fr = Frame(X)
    i0 = idx.copy()
    sc = np.linalg.norm(A) + _parts(X) * 1e-3 + 1e-300
    for ix in (tuple(idx), idx):
        if N == 0 and n == "TensorTrain" and False:
            continue
        close(X.gather(ix), want, f"{n}.gather ({type(ix).__name__})", 1e-9, sc)
    fr.check(f"{n}.gather")
    req(np.array_equal(i0, idx), "gather modified the coordinates")
    if isinstance(X, SparseTensor) and X.nnz:
        if X.entries.flags.writeable and g.coin(0.4):      # same values in other places
            X.entries[:] = np.roll(X.entries, 1)
            close(X.gather(tuple(idx)), den(X)[tuple(idx)], "SparseTensor.gather after permuting the entries", 1e-9, sc)
        if X.entries.flags.writeable:
            X.entries[g.i(0, X.nnz - 1)] += 1.5
        if g.coin() or not X.entries.flags.writeable:
            X.entries = X.entries * 3.0
        close(X.gather(tuple(idx)), den(X)[tuple(idx)], "SparseTensor.gather after changing entries", 1e-9, sc + 10)
    elif not isinstance(X, SparseTensor):
        k = g.i(0, len(shape) - 1)
        X[k] = X[k] * 2.0
        close(X.gather(tuple(idx)), 2 * want, f"{n}.gather after changing a core", 1e-9, 2 * sc)


@case("C05", 0.5)
def gather_long(g):
    """Modes longer than a byte, a short or a 16-bit index can count."""
    d = g.i(1, 3)
    shape = [g.i(1, 4) for _ in range(d)]
    j = g.i(0, d - 1)
    shape[j] = g.pick([257, 300, 40000, 66000])
    shape = tuple(shape)
    r = [1] + [g.i(1, 3) for _ in range(d - 1)] + [1]
    idx = np.array([g.r.integers(0, s, size=12) for s in shape])
    idx[j, 0], idx[j, 1] = shape[j] - 1, min(shape[j] - 1, 256)
    g.note(shape=shape)
    cores = [g.r.normal(size=(r[k], shape[k], r[k + 1])) for k in range(d)]
    want = np.ones((12, 1))
    for C, i in zip(cores, idx):
        want = np.einsum("ka,akb->kb", want, C[:, i, :])
    close(TensorTrain(cores).gather(tuple(idx)), want[:, 0], "gather from a tensor train with a long mode", 1e-10)
    m = [g.r.normal(size=(n, 3)) for n in shape]
    want = np.ones((12, 3))
    for C, i in zip(m, idx):
        want = want * C[i]
    close(CPTensor(m).gather(tuple(idx)), want.sum(1), "gather from a CP tensor with a long mode", 1e-10)
    u = np.unique(idx, axis=1)
    e = g.r.normal(size=u.shape[1])
    X = SparseTensor(shape, u, e)
    q = g.r.permutation(u.shape[1])
    close(X.gather(tuple(u[:, q])), e[q], "gather from a sparse tensor with a long mode", 0)
    off = u.copy()
    off[j] = (off[j] + 256) % shape[j]
    known = {tup(c): v for c, v in zip(u.T, e)}
    close(X.gather(tuple(off)), [known.get(tup(c), 0.0) for c in off.T], "gather next to the stored entries of a long mode", 0)
    close(X.to_numpy()[tuple(u)], e, "dense array of a sparse tensor with a long mode", 0)


@case("C05", 4)
def split(g):
    shape = g.shape(1, 5)
    X = g.sparse(shape)
    # distinct entry values identify the nonzeros
    X.entries = np.arange(1, X.nnz + 1).astype(float)
    n = g.pick([1, 2, 3, 5, 7, max(1, X.nnz), X.nnz + 2] if not g.big else [2, 11, 17, 33, 64, max(1, X.nnz // 2)])
    g.note(nnz=X.nnz, n=n)
    fr = Frame(X)
    S = X.split(n)
    same(len(S.tensors), n, "number of summands")
    same(tup(S.shape), shape, "shape of the split")
    seen = []
    for Y in S.tensors:
        same(tup(Y.shape), shape, "shape of a summand")
        ind = np.asarray(Y.indices)
        same(ind.shape, (len(shape), len(Y.entries)), "shape of the coordinates of a summand")
        for k, e in enumerate(Y.entries):
            seen.append((float(e), tup(ind[:, k])))
    want = [(float(e), tup(np.asarray(X.indices)[:, k])) for k, e in enumerate(X.entries)]
    same(sorted(seen), sorted(want), "nonzeros of the summands")
    same(sum(Y.nnz for Y in S.tensors), X.nnz, "total number of nonzeros")
    close(S.to_numpy(), den(X), "sum of the split", 1e-12)
    fr.check("split")


# ---------------------------------------------------------------- C06
@case("C06", 4)
def tt_add(g):
    shape = g.shape(2, 7)
    X, Y = g.tt(shape), g.tt(shape)
    A, B = den(X), den(Y)
    fr = Frame(X, Y)
    Z = X.add(Y)
    req(isinstance(Z, TensorTrain), "add returns no TensorTrain")
    same(tup(Z.shape), shape, "shape of add")
    same(tup(Z.rank), tup(a + b for a, b in zip(X.rank, Y.rank)), "rank of add")
    same(tup(C.shape[0] for C in Z.cores[1:]), tup(Z.rank), "core shapes of add")
    close(den(Z), A + B, "add", 1e-10, np.linalg.norm(A) + np.linalg.norm(B) + 1e-300)
    W = X.add(X)
    close(den(W), 2 * A, "X.add(X)", 1e-10)
    same(tup(W.rank), tup(2 * a for a in X.rank), "rank of X.add(X)")
    fr.check("add")
    Z.cores[0] *= 0
    Z.cores[-1] *= 0
    fr.check("changing the result of add")


# ---------------------------------------------------------------- C07
def _tt_for_orth(g, dmin=1):
    shape = g.shape(dmin, 6)
    k = g.i(0, 7)
    X = g.tt(shape, hi=7, plain=k > 1)
    if k >= 6:
        # orthonormal cores, up to a small error: nearly, but not, what is asked for
        e = 10.0 ** -g.r.uniform(0, 9)
        X = _nearly_orthogonal(g, X, e)
    if k == 0 and len(shape) > 1:
        # rank-deficient cores
        j = g.i(0, len(shape) - 1)
        C = X.cores[j].copy()
        C[:, :, -1] = 0
        C[0] = 0
        X.cores[j] = C
    return shape, X


def _nearly_orthogonal(g, X, e):
    cores = []
    left = g.coin(0.7)
    Y = X if left else X.T
    R = np.eye(1)
    for C in Y.cores:
        C = np.tensordot(R, np.array(C, dtype=float), axes=([1], [0]))
        Q, R = np.linalg.qr(C.reshape(-1, C.shape[2]))
        cores.append(Q.reshape(C.shape[0], C.shape[1], -1))
    out = []
    for C in cores:
        k = g.i(0, 3)
        if k == 0:
            C = C * (1 + e)
        elif k == 1:
            C = C + e * g.r.normal(size=C.shape)
        elif k == 2:
            C = C.astype(np.float32).astype(float)
        out.append(C)
    out[-1] = out[-1] * g.pick([1.0, 3.7])
    Y = TensorTrain(out)
    return Y if left else Y.T


@case("C07", 4)
def orthogonalize(g):
    shape, X = _tt_for_orth(g)
    A = den(X)
    fr = Frame(X)
    Y = X.orthogonalize()
    req(isinstance(Y, TensorTrain), "type")
    same(tup(Y.shape), shape, "shape of orthogonalize")
    same(len(Y.cores), len(shape), "number of cores")
    close(den(Y), A, "tensor after orthogonalize", 1e-9, _parts(X) * 1e-3 + np.linalg.norm(A) + 1e-300)
    r = (1,) + tup(Y.rank) + (1,)
    r0 = (1,) + tup(X.rank) + (1,)
    for k, C in enumerate(Y.cores):
        same(C.shape, (r[k], shape[k], r[k + 1]), f"shape of core {k}")
        if k < len(shape) - 1:
            left_orth(C, f"core {k}")
            req(r[k + 1] <= min(r0[k + 1], r[k] * shape[k]), f"rank {k} grew: {r[k+1]}")
    close(X.norm(), np.linalg.norm(A), "norm", 1e-8, _parts(X) * 1e-3 + np.linalg.norm(A) + 1e-300)
    close(np.linalg.norm(Y.cores[-1]), np.linalg.norm(A), "norm of the last core", 1e-8, _parts(X) * 1e-3 + np.linalg.norm(A) + 1e-300)
    fr.check("orthogonalize")
    # a core of a result is replaced: orthogonalizing again is no shortcut
    for what, Z in (("orthogonalize", Y), ("round", X.round(1e-13) if np.prod(X.shape) <= 6000 else X), ("-X", -X), ("T", X.T.T)):
        k = g.i(0, len(shape) - 1)
        Z[k] = g.r.normal(size=Z[k].shape)
        B = den(Z)
        W = Z.orthogonalize()
        close(den(W), B, f"orthogonalize after replacing a core of the result of {what}", 1e-9, _parts(Z) * 1e-3 + np.linalg.norm(B) + 1e-300)
        for C in W.cores[:-1]:
            left_orth(C, f"core after replacing a core of the result of {what}")
        close(Z.norm(), np.linalg.norm(B), "norm", 1e-8, _parts(Z) * 1e-3 + np.linalg.norm(B) + 1e-300)


# ---------------------------------------------------------------- C08
def unf_svals(A, k):
    n = A.shape
    return np.linalg.svd(A.reshape(int(np.prod(n[:k])), -1), compute_uv=False)


@case("C08", 1)
def diagonal(g):
    """Diagonal cores: the singular values are known exactly however small they are, so the rank is known as well."""
    d = g.i(2, 5)
    n = g.i(2, 6)
    w = 10.0 ** -np.sort(g.r.uniform(0, g.pick([3, 10, 20, 40]), size=n))
    w = w * 10.0 ** g.i(-8, 8)
    p = g.r.permutation(n)
    E = np.zeros((n, n, n))
    E[np.arange(n), np.arange(n), np.arange(n)] = 1
    k = g.i(0, d - 1)
    cores = [np.eye(n)[:, p].T.reshape(1, n, n)] + [E.copy() for _ in range(d - 2)] + [np.eye(n).reshape(n, n, 1)]
    if k == 0:
        cores[0] = cores[0] * w[p][:, None]
    elif k == d - 1:
        cores[-1] = np.diag(w).reshape(n, n, 1)
    else:
        cores[k] = E * w[:, None, None]
    X = TensorTrain(cores)
    eps = g.pick([None, 0.0, 10.0 ** -g.r.uniform(0, 12)])
    if eps and np.any(np.abs(w / w[0] - eps) < 1e-3 * eps):
        raise Skip
    mr = g.pick([None, g.i(1, n)])
    want = min(int(np.sum(w > (eps or 0) * w[0])), n if mr is None else mr)
    g.note(order=d, weights=w.tolist(), eps=eps, max_rank=mr)
    Y = X.round(eps, mr)
    same(tup(Y.rank), (want,) * (d - 1), "rank kept for known singular values")
    close(den(Y), den(X), "rounding", 1e-10, w[0] * 1e-3 + 1e10 * np.linalg.norm(w[want:]))


def _decaying(g, shape):
    """A tensor train with well separated singular values."""
    X = g.tt(shape, plain=True, hi=6)
    if g.coin():
        for C in X.cores[:-1]:
            C *= (0.3 ** np.arange(C.shape[2]))
    return X


@case("C08", 4)
def rounding(g):
    shape = g.shape(1, 6)
    if np.prod(shape) > 6000:       # (the code forms a square matrix of this size)
        raise Skip
    d = len(shape)
    X = _decaying(g, shape)
    A = den(X)
    nA = np.linalg.norm(A) + 1e-300
    mode = g.i(0, 4)
    kw = {}
    if mode in (0, 2, 3) and d > 1:
        mr = g.pick([1, 2, 3, tuple(g.n(1, 5, 40) for _ in range(d - 1)), 10])
        kw["max_rank"] = mr
    if mode in (1, 2):
        kw["eps"] = g.pick([1e-12, 1e-3, 0.05, 0.3, 0.9])
    elif mode == 3:
        kw["eps"] = g.pick([0, None])
    orth = g.coin(0.3)
    if orth:
        X = X.orthogonalize()
        kw["orthogonalized"] = True
    g.note(kw=kw)
    fr = Frame(X)
    Y = X.round(**kw)
    fr.check("round")
    same(tup(Y.shape), shape, "shape of round")
    r = (1,) + tup(Y.rank) + (1,)
    for k, C in enumerate(Y.cores):
        same(C.shape, (r[k], shape[k], r[k + 1]), f"shape of core {k}")
        if k > 0:
            right_orth(C, f"core {k}")
    mx = kw.get("max_rank")
    base = tup(X.rank)
    lim = process_ref(mx if mx is not None else base, shape)
    for k in range(d - 1):
        req(r[k + 1] <= lim[k], f"rank {k} is {r[k+1]}, maximum {lim[k]}")
    eps = kw.get("eps") or 0
    disc = 0.0
    exact = True
    for k in range(1, d):
        s = unf_svals(A, k)
        keep = r[k]
        t = s[keep:]
        disc += float(np.sum(t ** 2))
        if np.any(t > 1e-13 * nA):
            exact = False
    err = np.linalg.norm(den(Y) - A)
    req(err ** 2 <= disc * (1 + 1e-6) + (1e-9 * nA) ** 2, f"error {err:.3e} exceeds the discarded singular values {np.sqrt(disc):.3e}")
    # nothing is discarded needlessly: the last bond sees the whole tensor
    if d > 1:
        s = unf_svals(A, d - 1)
        want = [int(np.sum(s > s[0] * eps * (1 + 1e-9) + 1e-12 * nA)), int(np.sum(s > s[0] * eps * (1 - 1e-9)))]
        lo = max(1, min(want[0], lim[-1]))
        hi = max(1, min(want[1], lim[-1]))
        if eps > 0:
            req(lo <= r[d - 1] <= hi, f"rank at the last bond is {r[d-1]}, expected {lo}..{hi}")
        else:
            req(r[d - 1] >= lo, f"rank at the last bond is {r[d-1]}, expected at least {lo}")
    # when the whole chain must keep everything
    if eps == 0 and all(int(np.sum(unf_svals(A, k) > 1e-11 * nA)) <= lim[k - 1] for k in range(1, d)):
        close(den(Y), A, "lossless rounding", 1e-8, nA)
    if eps and eps <= 1e-12 and mode == 1:
        close(den(Y), A, "rounding with tiny threshold", 1e-8, nA)
    if not orth and d > 1:
        Z = X.orthogonalize().round(**{**kw, "orthogonalized": True})
        if all(gap_ok(unf_svals(den(Y), k)) for k in range(1, d)) and tup(Z.rank) == tup(Y.rank):
            ss = [unf_svals(A, k) for k in range(1, d)]
            if all(gap_at(s, r[k + 1]) for k, s in enumerate(ss)):
                close(den(Z), den(Y), "rounding an orthogonalized train", 1e-6, nA)


def gap_ok(s):
    return True


def gap_at(s, r):
    return r >= len(s) or s[r] < 0.9 * s[r - 1]


def process_ref(rank, shape):
    """Largest admissible rank tuple below the given one (fixed point, independent implementation)."""
    d = len(shape)
    r = [1] + (list(rank) if hasattr(rank, "__iter__") else [rank] * (d - 1)) + [1]
    r = [int(x) for x in r]
    for k in range(1, d):
        r[k] = min(r[k], r[k - 1] * shape[k - 1])
    for k in range(d - 1, 0, -1):
        r[k] = min(r[k], r[k + 1] * shape[k])
    return tuple(r[1:-1])


# ---------------------------------------------------------------- C09
@case("C09", 4)
def ttsvd(g):
    shape = g.shape(2, 6)
    d = len(shape)
    X = g.anyfmt(shape) if g.coin() else g.tt(shape, plain=True, hi=3)
    A = den(X)
    nA = np.linalg.norm(A) + 1e-300
    rank = g.pick([None, None, 1, 2, 3, tuple(g.n(1, 6, 50) for _ in range(d - 1)), 50])
    g.note(rank=rank, fmt=type(X).__name__)
    fr = Frame(X)
    Y = tt_svd(X, rank) if rank is not None else tt_svd(X)
    fr.check("tt_svd")
    req(isinstance(Y, TensorTrain), "type")
    same(tup(Y.shape), shape, "shape of tt_svd")
    r = (1,) + tup(Y.rank) + (1,)
    disc = 0.0
    lossless = True
    for k, C in enumerate(Y.cores):
        same(C.shape, (r[k], shape[k], r[k + 1]), f"shape of core {k}")
        if k < d - 1:
            left_orth(C, f"core {k}")
            s = unf_svals(A, k + 1)
            disc += float(np.sum(s[r[k + 1]:] ** 2))
            if rank is not None:
                rk = rank if np.isscalar(rank) else rank[k]
                req(r[k + 1] <= rk, f"rank {k} is {r[k+1]} above the requested {rk}")
                if np.sum(s > 1e-12 * nA) > rk:
                    lossless = False
    err = np.linalg.norm(den(Y) - A)
    if lossless:
        close(den(Y), A, "tt_svd at full rank", 1e-8, nA)
    req(err ** 2 <= disc * (1 + 1e-6) + (1e-8 * nA) ** 2, f"error {err:.3e} above the quasi-optimal bound {np.sqrt(disc):.3e}")
    # the bound refers to the given ranks
    if rank is not None:
        b = 0.0
        for k in range(d - 1):
            rk = rank if np.isscalar(rank) else rank[k]
            b += float(np.sum(unf_svals(A, k + 1)[rk:] ** 2))
        rt = process_ref(rank, shape)
        if tuple(rt) == tuple([rank] * (d - 1) if np.isscalar(rank) else rank):
            req(err ** 2 <= b * (1 + 1e-6) + (1e-8 * nA) ** 2, f"error {err:.3e} above the bound for the given ranks {np.sqrt(b):.3e}")


# ---------------------------------------------------------------- C10
@case("C10", 4)
def svdvals(g):
    shape, X = _tt_for_orth(g, 2)
    A = den(X)
    nA = np.linalg.norm(A) + 1e-300
    d = len(shape)
    fr = Frame(X)
    S = X.svdvals()
    fr.check("svdvals")
    req(len(S) in (d, d - 1), f"{len(S)} lists of singular values")
    bonds = list(range(1, d)) if len(S) == d - 1 else [1] + list(range(1, d))
    for b, s in zip(bonds, S):
        w = unf_svals(A, b)
        s = np.asarray(s)
        req(np.all(np.diff(s) <= 1e-10 * nA), "singular values not sorted")
        n = max(len(s), len(w))
        close(np.pad(s, (0, n - len(s))), np.pad(w, (0, n - len(w))), f"singular values at bond {b}", 1e-8,
              nA + _parts(X) * 1e-5)


@case("C10", 2)
def graded_svdvals(g):
    """Singular values over many orders of magnitude: the small ones are reported as well."""
    d = g.i(2, 4)
    shape = tuple(g.i(2, 5) for _ in range(d))
    k = g.i(1, d - 1)
    m = min(int(np.prod(shape[:k])), int(np.prod(shape[k:])))
    s = np.sort(10.0 ** -g.r.uniform(0, g.pick([6, 9, 11, 12]), size=m))[::-1]
    if g.coin(0.3):
        s[g.i(1, m):] = 0
    s = s * g.pick([1.0, 1e-9, 1e6])
    A = (np.linalg.qr(g.r.normal(size=(int(np.prod(shape[:k])), m)))[0] * s) @ np.linalg.qr(g.r.normal(size=(int(np.prod(shape[k:])), m)))[0].T
    # a tensor train of it by exact orthogonal factorizations
    cores, R, r = [], A.reshape(shape), 1
    for j in range(d - 1):
        Q, R = np.linalg.qr(R.reshape(r * shape[j], -1))
        cores.append(Q.reshape(r, shape[j], -1))
        r = Q.shape[1]
    cores.append(R.reshape(r, shape[-1], 1))
    X = TensorTrain(cores)
    if g.coin():
        X = X.T
        k = d - k
    g.note(shape=shape, bond=k, s=list(s))
    S = X.svdvals()
    got = np.asarray(S[k if len(S) == d else k - 1])
    n = max(len(s), len(got))
    close(np.pad(got, (0, n - len(got))), np.pad(s, (0, n - len(s))), f"graded singular values at bond {k}", 1e-13, s[0])


# ---------------------------------------------------------------- C24
@case("C24", 2)
def random_tt(g):
    shape = g.shape(1, 6)
    rank = g.pick([1, 3, 7, tuple(g.n(1, 9, 90) for _ in shape[1:])])
    orth = g.coin()
    trim = g.pick([None, True, False])
    ng = g.pick(["norm-1", "norm-preserve"])
    seed = g.pick([None, 0, g.i(0, 2**31)])
    g.note(rank=rank, orth=orth, trim=trim, ng=ng, seed=seed)
    if orth and trim is False:
        raises(ValueError, lambda: TensorTrain.random(shape, rank, seed=seed, orthog=True, trim=False), "orthogonal without trimming")
        return
    X = TensorTrain.random(shape, rank, seed=seed, orthog=orth, trim=trim, norm_goal=ng)
    same(tup(X.shape), shape, "shape")
    tr = trim if trim is not None else orth
    full = (rank,) * (len(shape) - 1) if np.isscalar(rank) else rank
    want = process_ref(full, shape) if tr else full
    same(tup(X.rank), tup(want), "rank")
    r = (1,) + tup(want) + (1,)
    for k, C in enumerate(X.cores):
        same(C.shape, (r[k], shape[k], r[k + 1]), f"shape of core {k}")
        req(np.all(np.isfinite(C)), "finite")
        if orth and k < len(shape) - 1:
            left_orth(C, f"core {k}")
    raises(ValueError, lambda: TensorTrain.random(shape, rank, norm_goal="no such goal"), "unknown norm goal")
    if len(shape) > 1:
        raises(ValueError, lambda: TensorTrain.random(shape, (2,) * len(shape)), "rank tuple of wrong length")


@case("C24")
def random_tt_norms(g):
    """Variance of the entries: norm-1 and norm-preserve differ by the mode sizes."""
    shape = (g.i(20, 40), g.i(20, 40), g.i(20, 40))
    X = TensorTrain.random(shape, 6, seed=g.i(0, 10**6))
    r = (1, 6, 6, 1)
    for k, C in enumerate(X.cores):
        v = np.mean(C ** 2) * r[k] * shape[k]
        req(0.4 < v < 2.0, f"variance of core {k} (norm-1): {v}")
    Y = TensorTrain.random(shape, 6, seed=g.i(0, 10**6), norm_goal="norm-preserve")
    for k, C in enumerate(Y.cores):
        v = np.mean(C ** 2) * r[k]
        req(0.4 < v < 2.0, f"variance of core {k} (norm-preserve): {v}")


@case("C24", 2)
def random_others(g):
    shape = g.shape(1, 5)
    seed = g.pick([None, 0, g.i(0, 2**31)])
    r = g.n(1, 8, 80)
    X = CPTensor.random(shape, r, seed=seed)
    same(tup(X.shape), shape, "CP shape")
    same(int(X.rank), r, "CP rank")
    same([C.shape for C in X.cores], [(n, r) for n in shape], "CP core shapes")
    rk = g.pick([min(r, 8), tuple(g.i(1, 8) for _ in shape)]) if len(shape) < 8 else 2
    X = TuckerTensor.random(shape, rk, seed=seed)
    want = tup(min(a, b) for a, b in zip(rk if not np.isscalar(rk) else (rk,) * len(shape), shape))
    same(tup(X.shape), shape, "Tucker shape")
    same(tup(X.rank), want, "Tucker rank")
    same(tup(X.core.shape), want, "Tucker core shape")
    for U in X.factors:
        close(U @ U.T, np.eye(U.shape[0]), "Tucker factor rows", 1e-8)
    tot = int(np.prod(shape))
    nnz = g.pick([0, 1, tot, g.i(0, tot)])
    X = SparseTensor.random(shape, nnz, seed=seed)
    same(tup(X.shape), shape, "sparse shape")
    same(int(X.nnz), nnz, "sparse nnz")
    ind = np.asarray(X.indices)
    same(ind.shape, (len(shape), nnz), "sparse coordinates")
    for k, n in enumerate(shape):
        req(np.all((0 <= ind[k]) & (ind[k] < n)), "coordinates in range")
    same(len({tup(ind[:, j]) for j in range(nnz)}), nnz, "distinct coordinates")
    req(np.all(np.isfinite(X.entries)) and X.entries.shape == (nnz,), "sparse entries")
    X = DenseTensor.random(shape)
    same(tup(X.shape), shape, "dense shape")
    same(X.data.shape, shape, "dense data")
    rk = g.pick([2, tuple(g.i(1, 4) for _ in shape[1:])])
    Z = TensorTrain.zero(shape, rk)
    same(tup(Z.shape), shape, "zero shape")
    same(tup(Z.rank), (2,) * (len(shape) - 1) if rk == 2 else rk, "zero rank")
    req(not np.any(den(Z)) and all(not np.any(C) for C in Z.cores), "zero train is zero")


@case("C24")
def random_sparse_large(g):
    """few coordinates of many: they would collide if they were drawn independently"""
    shape = g.pick([(100, 100, 40), (500, 700), (10,) * 5, (2,) * 17, (60000,), (3, 1, 30000), (130, 100, 100), (2,) * 21, (3000, 1, 1100)])
    tot = int(np.prod(shape))
    nnz = g.pick([tot // 100, tot // 70, tot // 20, tot // 5, 2000, 8000, tot - 1, tot])
    nnz = min(nnz, 100000)
    seed = g.pick([None, g.i(0, 2**31)])
    g.note(shape=shape, nnz=nnz, seed=seed)
    X = SparseTensor.random(shape, nnz, seed=seed)
    ind = np.asarray(X.indices)
    same(ind.shape, (len(shape), nnz), "sparse coordinates")
    flat = np.ravel_multi_index(tuple(ind), shape)
    same(len(np.unique(flat)), nnz, "number of distinct coordinates")
    same(int(X.nnz), nnz, "nnz")


@case("C24")
def random_mpo(g):
    from tt_sketch.tt_gmres import MPO
    d = g.i(1, 4)
    a = tuple(g.i(1, 4) for _ in range(d))
    b = a if g.coin() else tuple(g.i(1, 4) for _ in range(d))
    rk = g.pick([1, 3, tuple(g.i(1, 5) for _ in range(d - 1))])
    M = MPO.random(rk, a, b)
    want = process_ref(rk, [x * y for x, y in zip(a, b)])
    same(tup(M.in_shape), a, "in_shape")
    same(tup(M.out_shape), b, "out_shape")
    same(tup(M.rank), want, "MPO rank")
    r = (1,) + want + (1,)
    same([C.shape for C in M.cores], [(r[k], a[k], b[k], r[k + 1]) for k in range(d)], "MPO core shapes")


# ---------------------------------------------------------------- C25
@case("C25", 3)
def sizes(g):
    shape = g.shape(1, 6)
    X = g.anyfmt(shape)
    same(int(X.size), _size(X), f"size of {type(X).__name__}")
    req(np.ndim(X.size) == 0, "size is no number")
    if isinstance(X, SparseTensor):
        same(int(X.nnz), len(X.entries), "nnz")
    if isinstance(X, TensorSum):
        same(int(X.num_summands), len(X.tensors), "num_summands")
    if len(shape) > 1 and g.coin(0.5):
        s = sketched(g, shape)
        same(int(s.size), sum(P.size for P in s.Psi_cores) + sum(O.size for O in s.Omega_mats), "size of a sketch")
        S = X + g.tt(shape)
        same(int(S.size), _size(S), "size of a sum")
        S += s.to_tt()
        same(int(S.size), _size(S), "size of a sum after +=")
    from tt_sketch.tt_gmres import MPO
    d = g.i(1, 4)
    r = (1,) + tuple(g.i(1, 4) for _ in range(d - 1)) + (1,)
    M = MPO([g.arr((r[k], g.i(1, 4), g.i(1, 4), r[k + 1])) for k in range(d)])
    same(int(M.size), sum(C.size for C in M.cores), "size of an MPO")
    # data of other sizes put in place of the stored ones
    d = len(shape)
    Y = [g.tt(shape), g.cp(shape), M][g.i(0, 2)]
    Y.size
    Z = TensorSum([Y, g.sparse(shape)]) if g.coin() else Y
    Z.size
    cores = list(Y.cores)
    if isinstance(Y, CPTensor):
        r = g.i(1, 6)
        for k, n in enumerate(shape):
            Y[k] = g.r.normal(size=(n, r))
    elif isinstance(Y, TensorTrain):
        r = [1] + [g.i(1, 6) for _ in shape[1:]] + [1]
        for k, n in enumerate(shape):
            Y[k] = g.r.normal(size=(r[k], n, r[k + 1]))
    else:
        M.cores[-1] = np.concatenate([M.cores[-1]] * 2, axis=2)
    same(int(Y.size), sum(C.size for C in Y.cores), f"size of {type(Y).__name__} after replacing its cores")
    if Z is not Y:
        same(int(Z.size), sum(C.size for C in Y.cores) + _size(Z.tensors[1]), "size of a sum after replacing a summand's cores")
        Z.tensors.append(g.cp(shape))
        same(int(Z.size), sum(C.size for C in Y.cores) + _size(Z.tensors[1]) + _size(Z.tensors[2]), "size of a sum after appending to its summands")
        same(int(Z.num_summands), 3, "num_summands")
        W = Z.tensors[1]
        if W.nnz:
            W.indices, W.entries = np.asarray(W.indices)[:, :1], np.asarray(W.entries)[:1]
            same((int(W.nnz), int(W.size)), (1, 1 + len(shape)), "nnz and size after removing entries")


def _size(X):
    n = type(X).__name__
    if n == "DenseTensor":
        return int(X.data.size)
    if n == "SparseTensor":
        return len(X.entries) * (len(X.shape) + 1)
    if n in ("TensorTrain", "CPTensor"):
        return sum(C.size for C in X.cores)
    if n == "TuckerTensor":
        return X.core.size + sum(U.size for U in X.factors)
    return sum(_size(Y) for Y in X.tensors)
