"""Data of very large or very small size.  Every operation here is homogeneous of degree one, by its statement (the
result for c*X is c times the result for X, errors and singular values included), for every nonzero c whose products
stay in range."""
from .common import *
from .cases_stale import calm, out, stable
from .cases_sketch import SUPPORT, make_drms, rank_pair
from tt_sketch.drm import ALL_DRM
from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch
from tt_sketch.tt_gmres import round_tt_sum
from tt_sketch.tt_svd import tt_svd


def far(prop, weight=1):
    def deco(f):
        def far_scales(g):
            c = (10.0 ** g.i(20, 110) if g.coin() else 2.0 ** g.i(60, 360)) ** g.pick([1, -1]) * g.pick([1.0, -1.0])
            g.note(scale=c)
            f(g, c)
        return case(prop, weight)(far_scales)
    return deco


def times(X, c, g):
    """c*X with the same ranks, from the stored data; the factor sits in one core"""
    n = type(X).__name__
    cp = lambda l, k: [np.array(a) * (c if i == k else 1.0) for i, a in enumerate(l)]
    if n == "DenseTensor":
        return DenseTensor(np.array(X.data) * c)
    if n == "SparseTensor":
        return SparseTensor(X.shape, np.array(X.indices), np.array(X.entries) * c)
    if n == "TensorTrain":
        return TensorTrain(cp(X.cores, g.i(0, len(X.cores) - 1)))
    if n == "CPTensor":
        return CPTensor(cp(X.cores, g.i(0, len(X.cores) - 1)))
    if n == "TuckerTensor":
        return TuckerTensor(cp(X.factors, -1), np.array(X.core) * c)
    return TensorSum([times(t, c, g) for t in X.tensors])


def homogeneous(g, what, X, op, c, tol=1e-8):
    Y = times(X, c, g)
    a, b = out(op(Y)), out(op(X))
    s = np.linalg.norm(b) + 1e-6 * np.linalg.norm(den(X)) + 1e-300
    close(a / c, b, f"{what} of a {type(X).__name__} scaled by {c:.1e}", tol, s)


def tt(g, dmin=1):
    return calm(g, g.tt(g.shape(dmin, 5, total=150), plain=True))


@far("C04")
def _(g, c):
    X = calm(g, g.anyfmt(g.shape(1, 4, total=80)))
    Y = calm(g, g.anyfmt(tuple(X.shape)))
    if np.linalg.norm(den(X)) < 1e-6 * np.linalg.norm(den(Y)) or np.linalg.norm(den(Y)) < 1e-6 * np.linalg.norm(den(X)):
        raise Skip
    c = c if abs(np.log10(abs(c))) < 60 else np.sign(c) * abs(c) ** 0.5
    x = np.linalg.norm(den(X))
    close(times(X, c, g).norm() / abs(c), x, f"norm of a {type(X).__name__} scaled by {c:.1e}", 1e-6, x + sum(np.linalg.norm(den(t)) for t in getattr(X, "tensors", [])))
    y = times(Y, c, g)
    sc = sum(np.linalg.norm(den(t)) for t in getattr(X, "tensors", [X])) * sum(np.linalg.norm(den(t)) for t in getattr(Y, "tensors", [Y])) * 1e3 + 1e-300
    close(X.dot(y) / c, np.vdot(den(X), den(Y)), f"inner product with a {type(Y).__name__} scaled by {c:.1e}", 1e-11, sc)


@far("C06")
def _(g, c):
    X = tt(g, 2)
    Y = calm(g, g.tt(tuple(X.shape), plain=True))
    z = times(X, c, g).add(times(Y, c, g))
    close(den(z) / c, den(X) + den(Y), f"core-wise sum of tensor trains scaled by {c:.1e}", 1e-10, np.linalg.norm(den(X)) + np.linalg.norm(den(Y)))


@far("C07")
def _(g, c):
    X = tt(g)
    Z = times(X, c, g).orthogonalize()
    close(den(Z) / c, den(X), f"orthogonalized tensor train scaled by {c:.1e}", 1e-9, np.linalg.norm(den(X)) + 1e-300)
    for k, C in enumerate(Z.cores[:-1]):
        left_orth(np.asarray(C), f"core {k} of an orthogonalized tensor train scaled by {c:.1e}")


@far("C08")
def _(g, c):
    X = tt(g, 2)
    Y = times(X, c, g)
    r = g.i(1, 4)
    Z, W = Y.round(max_rank=r), X.round(max_rank=r)
    same(tup(Z.rank), tup(W.rank), f"ranks after rounding a tensor train scaled by {c:.1e}")
    n = np.linalg.norm(den(X))
    e = np.linalg.norm(den(Z) / c - den(X))
    f = np.linalg.norm(den(W) - den(X))
    close(e, f, f"rounding error of a tensor train scaled by {c:.1e}", 1e-6, n + 1e-300)
    e = np.linalg.norm(den(Y.round()) / c - den(X))
    req(e <= 1e-8 * n, f"rounding without limits changes a tensor train scaled by {c:.1e}")


@far("C09")
def _(g, c):
    X = calm(g, g.plainfmt(g.shape(2, 5, total=100)))
    Y = times(X, c, g)
    n = np.linalg.norm(den(X))
    Z = tt_svd(Y)
    close(den(Z) / c, den(X), f"TT-SVD at full rank of a {type(X).__name__} scaled by {c:.1e}", 1e-9, n + 1e-300)
    r = g.i(1, 3)
    e = np.linalg.norm(den(tt_svd(Y, r)) / c - den(X))
    f = np.linalg.norm(den(tt_svd(X, r)) - den(X))
    close(e, f, f"error of the TT-SVD of a {type(X).__name__} scaled by {c:.1e}", 1e-6, n + 1e-300)


@far("C10")
def _(g, c):
    X = tt(g, 2)
    a, b = times(X, c, g).svdvals(), X.svdvals()
    same(len(a), len(b), "number of spectra")
    for k, (s, t) in enumerate(zip(a, b)):
        close(np.asarray(s) / abs(c), np.asarray(t), f"singular values of unfolding {k} scaled by {c:.1e}", 1e-7, np.linalg.norm(t) + 1e-300)


@far("C13")
def _(g, c):
    shape = g.shape(2, 4, total=80)
    lt = g.pick(ALL_DRM)
    left, right = rank_pair(g, shape)
    L, R = make_drms(g, shape, left, right, lt)
    X = calm(g, getattr(g, g.pick(SUPPORT[lt]))(shape))
    homogeneous(g, f"sketch with {lt.__name__}", X, lambda x: stream_sketch(x, left, right, left_drm=L, right_drm=R), c)


@far("C16")
def _(g, c):
    shape = g.shape(2, 4, total=80)
    X = calm(g, g.plainfmt(shape))
    r = g.i(1, 3)
    sd = g.i(0, 10**6)
    for what, op in (("HMT sketch", lambda x: hmt_sketch(x, r, seed=sd)),
                     ("orthogonal sketch", lambda x: orthogonal_sketch(x, r, r + 2, seed=sd))):
        stable(g, X, op, 1e-5)
        homogeneous(g, what, X, op, c, 1e-5)


@far("C22")
def _(g, c):
    shape = g.shape(2, 4, total=100)
    S = TensorSum([calm(g, g.tt(shape, plain=True, hi=2)) for _ in range(g.i(1, 3))])
    n = sum(np.linalg.norm(den(t)) for t in S.tensors)
    for m in ("exact", "pairwise", "sketch", "orth_sketch"):
        z = round_tt_sum(times(S, c, g), 200, method=m)
        close(den(z) / c, den(S), f"{m} rounding of a sum scaled by {c:.1e}", 1e-4 if "sketch" in m else 1e-8, n + 1e-300)
