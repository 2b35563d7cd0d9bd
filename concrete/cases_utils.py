"""C11, C12, C27."""
from .common import *
from .cases_tensor import process_ref
from tt_sketch.utils import (dematricize, hilbert_tensor, left_mul_pinv, matricize, power_decay_tensor, process_tt_rank, projector,
                             right_mul_pinv, sqrt_tensor, trim_ranks)


@case("C11", 12)
def trimming(g):
    k = g.i(0, 9)
    if k == 0:
        d = g.i(100, 260)
        shape = tuple(g.pick([1, 1, 1, 1, 2]) for _ in range(d)) if g.coin() else (1,) * d
    elif k == 1:
        d = g.i(10, 60)
        shape = tuple(g.i(1, 4) for _ in range(d))
    elif k == 2:
        d = g.i(2, 8)
        shape = tuple(g.pick([1, 2, 10**6, 10**9]) for _ in range(d))
    else:
        d = g.i(1, 9)
        shape = tuple(g.i(1, 6) for _ in range(d))
    if g.hint.get("shape"):
        if g.coin():
            shape = tuple(int(max(1, s)) for s in g.hint["shape"])
            d = len(shape)
    big = g.pick([3, 20, 1000, 10**7])
    rank = tuple(g.i(1, big) for _ in range(d - 1))
    g.note(shape=shape, rank=rank)
    want = process_ref(rank, shape)
    got = trim_ranks(shape, rank)
    same(tup(got), want, "trim_ranks")
    req(isinstance(got, tuple), "trim_ranks returns no tuple")
    same(tup(trim_ranks(shape, got)), tup(got), "trimming twice")
    same(tup(process_tt_rank(rank, shape, trim=True)), want, "process_tt_rank(trim=True)")
    same(tup(process_tt_rank(list(rank), shape, trim=True)), want, "process_tt_rank(list, trim=True)")
    p = process_tt_rank(rank, shape, trim=False)
    req(isinstance(p, tuple), "process_tt_rank returns no tuple")
    same(tup(p), rank, "process_tt_rank(trim=False)")
    r = g.i(1, big)
    same(tup(process_tt_rank(r, shape, trim=False)), (r,) * (d - 1), "rank given as one number")
    same(tup(process_tt_rank(np.int64(r), shape, trim=False)), (r,) * (d - 1), "rank given as a numpy number")
    same(tup(process_tt_rank(r, shape, trim=True)), process_ref(r, shape), "trimmed rank given as one number")
    same(tup(process_tt_rank(np.array(rank, dtype=int), shape, trim=False)), rank, "rank given as an array")
    for bad in (rank + (1,), rank[:-1] if rank else (1, 1), (2,) * (d + 3)):
        for t in (True, False):
            raises(ValueError, lambda: process_tt_rank(bad, shape, trim=t), f"rank tuple of length {len(bad)} for order {d}")


@case("C12", 10)
def matricization(g):
    shape = g.shape(1, 6, total=600, big=5)
    d = len(shape)
    A = g.arr(shape)
    A0 = A.copy()
    k = g.i(1, d)
    modes = tuple(int(i) for i in g.r.permutation(d)[:k])
    form = g.i(0, 4)
    if form == 0:
        modes = (g.i(0, d - 1),)
        arg = modes[0]
    elif form == 1:
        modes = tuple(range(k))
        arg = range(k)
    elif form == 2:
        arg = list(modes)
    else:
        arg = modes
    ms = g.coin()
    g.note(modes=modes, form=form, mat_shape=ms)
    M = matricize(A, arg, mat_shape=ms) if ms or g.coin() else matricize(A, arg)
    rest = [i for i in range(d) if i not in modes]
    left = tuple(shape[m] for m in modes)
    want_shape = ((int(np.prod(left, dtype=int)),) if ms else left) + (int(np.prod([shape[i] for i in rest], dtype=int)),)
    same(tuple(M.shape), want_shape, "shape of matricize")
    W = np.empty(want_shape)
    for idx in np.ndindex(*shape):
        l = tuple(idx[m] for m in modes)
        if ms:
            f = 0
            for m in modes:
                f = f * shape[m] + idx[m]
            l = (f,)
        c = 0
        for i in rest:
            c = c * shape[i] + idx[i]
        W[l + (c,)] = A0[idx]
    close(M, W, "matricize", 0)
    req(np.array_equal(A, A0), "matricize modified its argument")
    # inverse for a single mode
    m = g.i(0, d - 1)
    Mm = matricize(A, m, mat_shape=g.coin())
    M0 = Mm.copy()
    B = dematricize(Mm, m, shape)
    same(tuple(B.shape), shape, "shape of dematricize")
    close(B, A0, "dematricize(matricize(A))", 0)
    req(np.array_equal(Mm, M0), "dematricize modified its argument")
    n2 = g.i(1, 5)
    G = g.arr((n2, shape[m]), True)
    B = dematricize(G @ M0, m, shape)
    close(B, np.moveaxis(np.tensordot(G, A0, axes=([1], [m])), 0, m), "dematricize with changed mode size", 1e-9)


# ---------------------------------------------------------------- C27
def conditioned(g, m, n):
    """matrix with singular values of different size, or zero"""
    k = min(m, n)
    s = 10.0 ** -np.sort(g.r.random(k) * g.pick([0, 1, 4, 6]))
    U, V = np.linalg.qr(g.r.standard_normal((m, k)))[0], np.linalg.qr(g.r.standard_normal((n, k)))[0]
    A = (U * s) @ V.T * g.pick([1.0, 1e-8, 1e5])
    if g.coin(0.05):
        A[:] = 0
    A = np.asfortranarray(A) if g.coin(0.3) else A
    return A


def pinv_ref(A):
    U, s, V = np.linalg.svd(A, full_matrices=False)
    k = int(np.sum(s > 1e-11 * (s[0] if len(s) else 0))) if len(s) and s[0] > 0 else 0
    return (V[:k].T / s[:k]) @ U[:, :k].T


@case("C27", 2)
def pinv_products(g):
    m, n, k = g.n(1, 8, 60), g.n(1, 8, 60), g.n(1, 6, 30)
    A = conditioned(g, m, n)
    B, C = g.r.standard_normal((m, k)), g.r.standard_normal((k, n))
    g.note(A=A.shape, B=B.shape, C=C.shape)
    A0, B0, C0 = A.copy(), B.copy(), C.copy()
    P = pinv_ref(A)
    nrm = np.linalg.norm(P, 2) if P.any() else 1.0
    close(left_mul_pinv(A, B), P @ B, "left_mul_pinv", 1e-8, scale=nrm * np.linalg.norm(B))
    close(right_mul_pinv(C, A), C @ P, "right_mul_pinv", 1e-8, scale=nrm * np.linalg.norm(C))
    req(np.array_equal(A, A0) and np.array_equal(B, B0) and np.array_equal(C, C0), "an operand was modified")


@case("C27")
def projectors(g):
    n, k = g.n(1, 8, 40), g.n(1, 8, 20)
    l = k if g.coin() else g.i(1, 8)
    X = g.r.standard_normal((n, k))
    Y = None if g.coin(0.4) else g.r.standard_normal((n, l))
    W = X if Y is None else Y
    if n < max(X.shape[1], W.shape[1]) or np.linalg.cond(W.T @ X) > 1e5:
        raise Skip("badly conditioned")
    g.note(X=X.shape, Y=None if Y is None else Y.shape)
    P = projector(X) if Y is None else projector(X, Y)
    same(P.shape, (n, n), "shape")
    R = X @ pinv_ref(W.T @ X) @ W.T
    close(P, R, "projector", 1e-8, scale=1 + np.linalg.norm(R))


@case("C27", 2)
def example_tensors(g):
    d, n = g.pick([(1, 7), (1, 1), (2, 1), (2, 5), (3, 4), (4, 3), (5, 2), (6, 2), (7, 2), (3, 9)])
    if g.coin(0.3):      # more than 127, 255, 32767 or 65535 in a mode or as a sum of indices
        d, n = g.pick([(1, g.i(100, 700)), (2, g.i(60, 300)), (3, g.i(40, 100)), (1, g.pick([40000, 70000])), (2, 520), (4, 24)])
    g.note(d=d, n=n)
    X = hilbert_tensor(d, n)
    same(X.shape, (n,) * d, "shape of the Hilbert tensor")
    close(X, 1.0 / (np.indices((n,) * d).sum(axis=0) + 1), "Hilbert tensor", 1e-13)
    shape = g.shape(1, 6)
    a, b = (-0.2, 2) if g.coin() else (g.pick([0.5, -1.25, 3.0, -4]), g.pick([2, -0.75, 1.5, 0]))
    X = sqrt_tensor(shape) if (a, b) == (-0.2, 2) else sqrt_tensor(shape, a=a, b=b)
    g.note(shape=shape, a=a, b=b)
    same(X.shape, shape, "shape of the square root tensor")
    x = [np.array([a + (b - a) * i / max(m - 1, 1) for i in range(m)]) for m in shape]
    Y = np.zeros(shape)
    for k, v in enumerate(x):
        Y = Y + v.reshape((1,) * k + (-1,) + (1,) * (len(shape) - 1 - k))
    Y = np.sqrt(np.abs(Y))
    Y /= np.linalg.norm(Y)
    close(X, Y, "square root tensor", 1e-7)


@case("C27")
def power_decay(g):
    shape = g.shape(2, 5)
    p = g.pick([2.0, 1.0, 0.5, 3.5, 4])
    seed = g.pick([None, 0, g.i(0, 2**31)])
    g.note(shape=shape, pow=p, seed=seed)
    X = power_decay_tensor(shape, pow=p, seed=seed)
    same(X.shape, shape, "shape of the power decay tensor")
    req(np.all(np.isfinite(X)), "finite")
    s = np.linalg.svd(X.reshape(-1, shape[-1]), compute_uv=False)
    k = np.arange(1, len(s) + 1)
    req(np.all(s <= s[0] * k ** -float(p) * (1 + 1e-8) + 1e-12), f"singular values of the last unfolding decay too slowly: {s[:5]}")
    close(s[0], 1.0, "norm of the last unfolding", 1e-9)
