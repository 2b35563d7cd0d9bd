"""C21-C23: linear maps, rounding of sums, TT-GMRES."""
from .common import *
from .cases_tensor import process_ref
from tt_sketch.tt_gmres import MPO, TTLinearMapSum, TTPrecond, round_tt_sum, tt_sum_gmres


def mpo_mat(M):
    """(out x in) matrix of an operator with cores (r, in, out, r')."""
    A = mpo_dense(M.cores)
    d = len(M.cores)
    A = np.transpose(A, tuple(range(1, 2 * d, 2)) + tuple(range(0, 2 * d, 2)))
    n = int(np.prod(A.shape[:d]))
    return A.reshape(n, -1)


def rand_mpo(g, a, b, hi=3, plain=False):
    d = len(a)
    r = (1,) + tuple(g.i(1, hi) for _ in range(d - 1)) + (1,)
    return MPO([g.arr((r[k], a[k], b[k], r[k + 1]), plain) for k in range(d)])


def small(g, dmin=1, dmax=4, total=60):
    return g.shape(dmin, dmax, total=total)


@case("C21", 6)
def operators(g):
    a = small(g)
    d = len(a)
    b = tuple(g.i(1, 4) for _ in range(d)) if g.coin(0.6) else a
    M = rand_mpo(g, a, b)
    X = g.tt(a)
    g.note(ins=a, outs=b, rank=tup(M.rank), xr=tup(X.rank))
    A = mpo_mat(M)
    x = den(X)
    sc = np.linalg.norm(A) * np.linalg.norm(x) + 1e-300
    fr = Frame(M, X)
    Y = M(X)
    fr.check("MPO applied to a tensor train")
    req(isinstance(Y, TensorTrain), "type of the image")
    same(tup(Y.shape), b, "shape of the image")
    same(tup(Y.rank), tuple(p * q for p, q in zip(M.rank, X.rank)), "ranks of the image")
    close(den(Y), (A @ x.ravel()).reshape(b), "MPO applied to a tensor train", 1e-10, sc)
    same(tup(M.in_shape), a, "in_shape")
    same(tup(M.out_shape), b, "out_shape")
    same(tup(M.rank), tup(C.shape[0] for C in M.cores[1:]), "rank")
    same(tup(M.shape), tuple(p * q for p, q in zip(a, b)), "shape")
    T_ = M.T
    fr.check("MPO.T")
    same(tup(T_.in_shape), b, "in_shape of the transpose")
    same(tup(T_.out_shape), a, "out_shape of the transpose")
    close(mpo_mat(T_), A.T, "transpose of an MPO", 1e-12)
    y = g.tt(b)
    close(den(T_(y)), (A.T @ den(y).ravel()).reshape(a), "transposed MPO applied", 1e-10, np.linalg.norm(A) * np.linalg.norm(den(y)) + 1e-300)
    close(mpo_mat(T_.T), A, "double transpose", 1e-12)
    N = M.to_numpy()
    fr.check("MPO.to_numpy")
    close(N, mpo_dense(M.cores), "dense array of an MPO", 1e-11, np.linalg.norm(A) + 1e-300)
    tt = M.to_tt()
    fr.check("MPO.to_tt")
    req(isinstance(tt, TensorTrain), "type of to_tt")
    same(tup(tt.shape), tuple(p * q for p, q in zip(a, b)), "shape of to_tt")
    close(den(tt), mpo_dense(M.cores).reshape(tup(tt.shape)), "tensor train of an MPO", 1e-11, np.linalg.norm(A) + 1e-300)
    c = g.scalar()
    for w, f in (("M*c", lambda: M * c), ("c*M", lambda: c * M), ("-M", lambda: -M)):
        Z = f()
        fr.check(w)
        req(isinstance(Z, MPO), f"type of {w}")
        k = -1 if w == "-M" else c
        close(mpo_mat(Z), k * A, w, 1e-12, abs(k) * np.linalg.norm(A) + 1e-300)
    if c:
        close(mpo_mat(M / c), A / c, "M/c", 1e-11, np.linalg.norm(A / c) + 1e-300)
    I = MPO.eye(a)
    same(tup(I.in_shape), a, "identity in_shape")
    close(mpo_mat(I), np.eye(len(x.ravel())), "identity operator", 0)
    Z = I(X)
    close(den(Z), x, "identity applied", 1e-13, np.linalg.norm(x) + 1e-300)
    same(tup(Z.rank), tup(X.rank), "ranks after the identity")
    R = MPO.random(g.i(1, 4), a, a)
    same(tup(R.in_shape), a, "random MPO in_shape")
    close(den(R(X)), (mpo_mat(R) @ x.ravel()).reshape(a), "random MPO applied", 1e-10, np.linalg.norm(mpo_mat(R)) * np.linalg.norm(x) + 1e-300)
    fr.check("linear maps")


@case("C21", 4)
def preconditioner(g):
    a = small(g)
    d = len(a)
    m = g.i(0, d - 1)
    n = a[m]
    P = np.eye(n) * 3 + g.r.normal(size=(n, n)) * 0.7
    if np.linalg.cond(P) > 1e4:
        raise Skip
    X = g.tt(a)
    x = den(X)
    g.note(mode=m)
    K = TTPrecond(P, a, mode=m)
    fr = Frame(X, K)
    same(tup(K.in_shape), a, "in_shape")
    same(tup(K.out_shape), a, "out_shape")
    Y, Z, W = K(X), K.backward_call(X), K.forward_call(X)
    fr.check("preconditioner")
    app = lambda B, t: np.moveaxis(np.tensordot(B, t, axes=([1], [m])), 0, m)
    sc = np.linalg.norm(x) * np.linalg.cond(P) * 10 + 1e-300
    for what, y, B in (("solving", Y, np.linalg.inv(P)), ("backward call", Z, np.linalg.inv(P)), ("forward call", W, P)):
        req(isinstance(y, TensorTrain), "type of the image")
        same(tup(y.shape), a, "shape of the image")
        same(tup(y.rank), tup(X.rank), "ranks of the image")
        close(den(y), app(B, x), f"preconditioner: {what}", 1e-9, sc)
    close(den(K.forward_call(K(X))), x, "forward after backward", 1e-9, sc)
    close(den(K(K.forward_call(X))), x, "backward after forward", 1e-9, sc)
    fr.check("preconditioner")


@case("C21", 3)
def map_sums(g):
    a = small(g)
    d = len(a)
    maps = [rand_mpo(g, a, a) for _ in range(g.n(1, 3, 10))]
    mats = [mpo_mat(M) for M in maps]
    if g.coin(0.4):
        m = g.i(0, d - 1)
        P = np.eye(a[m]) * 3 + g.r.normal(size=(a[m], a[m])) * 0.5
        if np.linalg.cond(P) < 1e4:
            maps.append(TTPrecond(P, a, mode=m))
            B = np.eye(1)
            for k in range(d):
                B = np.kron(B, np.linalg.inv(P) if k == m else np.eye(a[k]))
            mats.append(B)
    A = TTLinearMapSum(maps)
    X = g.tt(a) if g.coin() else TensorSum([g.tt(a) for _ in range(g.n(1, 3, 10))])
    fr = Frame(X, *maps)
    Y = A(X)
    fr.check("sum of linear maps")
    req(isinstance(Y, TensorSum), "type of the image")
    n = 1 if isinstance(X, TensorTrain) else len(X.tensors)
    same(len(Y.tensors), n * len(maps), "number of images")
    same(tup(Y.shape), a, "shape of the image")
    x = den(X).ravel()
    nx = np.linalg.norm(x) if n == 1 else sum(np.linalg.norm(den(t)) for t in X.tensors)
    close(den(Y).ravel(), sum(B @ x for B in mats), "sum of linear maps", 1e-9, sum(np.linalg.norm(B) for B in mats) * nx + 1e-300)
    same(len(A.linear_maps), len(maps), "number of maps")
    same(tup(A.in_shape), a, "in_shape")
    same(tup(A.out_shape), a, "out_shape")


# ---------------------------------------------------------------- C22
def unfold_rank(A, tol=1e-10):
    out = []
    n = np.linalg.norm(A)
    for k in range(1, A.ndim):
        s = np.linalg.svd(A.reshape(int(np.prod(A.shape[:k])), -1), compute_uv=False)
        out.append(max(1, int(np.sum(s > tol * (n or 1)))))
    return tuple(out)


METHODS = ("exact", "pairwise", "sketch", "orth_sketch")


@case("C22", 6)
def rounding(g):
    shape = g.shape(2, 5, total=250)
    d = len(shape)
    k = g.n(1, 4, 20)
    tts = [g.tt(shape, plain=True, hi=3) for _ in range(k)]
    if k > 1 and g.coin(0.3):
        tts[-1] = tts[0] * g.pick([-0.5, 2.0])      # summands sharing their spaces
    S = TensorSum(tts)
    A = den(S)
    m = g.pick(METHODS)
    r = g.pick([g.i(1, 4), g.n(1, 10, 60), tuple(g.i(1, 5) for _ in shape[1:]), tuple(g.n(1, 12, 60) for _ in shape[1:])])
    trim = process_ref(r if isinstance(r, tuple) else (r,) * (d - 1), shape)
    g.note(method=m, max_rank=r, summands=k)
    fr = Frame(S)
    kw = {}
    if m in ("sketch", "orth_sketch") and g.coin(0.3):
        kw["oversample_factor"] = g.pick([1.5, 3, 2])
        if m == "sketch" and kw["oversample_factor"] == 1.5 and g.coin(0.5):
            kw["oversample_factor"] = 2.5
    Y = round_tt_sum(S, r, method=m, **kw)
    fr.check(f"round_tt_sum {m}")
    req(isinstance(Y, TensorTrain), "type of the rounded sum")
    same(tup(Y.shape), shape, f"shape of the rounded sum ({m})")
    req(all(a <= b for a, b in zip(Y.rank, trim)), f"{m}: ranks {tup(Y.rank)} above {trim}")
    ur = unfold_rank(A)
    if all(a <= b for a, b in zip(ur, trim)):
        # ranks of partial sums may matter for pairwise rounding
        ok = True
        if m == "pairwise":
            P = 0
            for t in tts:
                P = P + den(t)
                ok = ok and all(a <= b for a, b in zip(unfold_rank(P), trim))
        if ok:
            close(den(Y), A, f"{m} rounding at sufficient rank {trim} (needed {ur})", 1e-4 if "sketch" in m else 1e-8, sum(np.linalg.norm(den(t)) for t in tts) + 1e-300)
    if m == "exact":
        big = tts[0]
        cores = [np.array(c) for c in big.cores]
        for t in tts[1:]:
            new = []
            for q, (c1, c2) in enumerate(zip(cores, t.cores)):
                r1 = 1 if q == 0 else c1.shape[0] + c2.shape[0]
                r2 = 1 if q == d - 1 else c1.shape[2] + c2.shape[2]
                C = np.zeros((r1, c1.shape[1], r2))
                C[:c1.shape[0] if q else 1, :, :c1.shape[2] if q < d - 1 else 1] += c1
                C[-c2.shape[0] if q else 0:, :, -c2.shape[2] if q < d - 1 else 0:] += c2
                new.append(C)
            cores = new
        Z = TensorTrain(cores).round(None, r)
        close(den(Y), den(Z), "exact rounding against rounding the direct sum", 1e-6, np.linalg.norm(A) + sum(np.linalg.norm(den(t)) for t in tts) * 1e-3 + 1e-300)
        E = round_tt_sum(S, r, eps=1e-3, method="exact")
        F_ = TensorTrain(cores).round(1e-3, r)
        close(den(E), den(F_), "exact rounding with threshold against rounding the direct sum", 1e-6, np.linalg.norm(A) + sum(np.linalg.norm(den(t)) for t in tts) * 1e-3 + 1e-300)
        # quasi-optimality
        b2 = 0.0
        for q in range(1, d):
            s = np.linalg.svd(A.reshape(int(np.prod(shape[:q])), -1), compute_uv=False)
            b2 += np.sum(s[trim[q - 1]:] ** 2)
        e = np.linalg.norm(den(Y) - A)
        req(e <= np.sqrt(b2) * (1 + 1e-6) + 1e-8 * sum(np.linalg.norm(den(t)) for t in tts), f"exact rounding error {e:.3e} above {np.sqrt(b2):.3e}")
    N = round_tt_sum(S, r, method=None)
    close(den(N), A, "no rounding", 1e-13, sum(np.linalg.norm(den(t)) for t in tts) + 1e-300)
    for bad in ("svd", "Exact", "", "none"):
        raises(ValueError, lambda: round_tt_sum(S, r, method=bad), f"method {bad!r}")
    fr.check("round_tt_sum")


# ---------------------------------------------------------------- C23
def system(g, sym=False):
    shape = g.shape(2, 3, total=24)
    while int(np.prod(shape)) < 3:
        shape = (2, 3)
    d = len(shape)
    n = int(np.prod(shape))
    maps = [MPO.eye(shape) * 1.0]
    for _ in range(g.i(1, 2)):
        M = rand_mpo(g, shape, shape, 2, True)
        if sym:
            M = MPO([C + np.transpose(C, (0, 2, 1, 3)) for C in M.cores])
        M = M * float(0.35 / np.linalg.norm(mpo_mat(M), 2))
        maps.append(M)
    A = TTLinearMapSum(maps)
    B = sum(mpo_mat(M) for M in maps)
    return shape, n, A, B


def krylov(B, r, m):
    """Orthonormal basis of the Krylov space of dimension at most m."""
    Q = []
    v = r
    for _ in range(m):
        w = v.copy()
        for _ in range(3):
            for q in Q:
                w = w - (q @ w) * q
        if np.linalg.norm(w) <= 1e-7 * np.linalg.norm(v):
            return np.array(Q).T, False
        q = w / np.linalg.norm(w)
        Q.append(q)
        v = B @ q
    return np.array(Q).T, True


@case("C23", 6)
def gmres_exact(g):
    """Rounding loses nothing (threshold 0, full ranks): iterates and residuals are those of GMRES."""
    sym = g.coin(0.3)
    shape, n, A, B = system(g, sym)
    d = len(shape)
    b = g.tt(shape, plain=True, hi=3)
    x0 = g.tt(shape, plain=True, hi=2) if g.coin(0.4) else None
    pre = None
    P = np.eye(n)
    if g.coin(0.3) and not sym:
        m = g.i(0, d - 1)
        Q = np.eye(shape[m]) * 2 + g.r.normal(size=(shape[m],) * 2) * 0.3
        if np.linalg.cond(Q) < 50:
            pre = TTPrecond(Q, shape, mode=m)
            P = np.eye(1)
            for k in range(d):
                P = np.kron(P, np.linalg.inv(Q) if k == m else np.eye(shape[k]))
    PB = P @ B
    bd = den(b).ravel()
    xd = den(x0).ravel() if x0 is not None else np.zeros(n)
    r0 = P @ bd - PB @ xd
    its = g.i(1, min(6, n - 1))
    K, full = krylov(PB, r0, its)
    if not full:
        raise Skip
    meth = g.pick(["pairwise", "exact"])
    g.note(its=its, sym=sym, precond=pre is not None, x0=x0 is not None, method=meth)
    fr = Frame(b, *( [x0] if x0 is not None else []), *A.linear_maps, *([pre] if pre else []))
    x, h = tt_sum_gmres(A, b, max_rank=10**4, precond=pre, x0=x0, tolerance=0.0, maxiter=its, symmetric=sym, rounding_method=meth, save_basis=True)
    fr.check("tt_sum_gmres")
    same(tup(x.shape), shape, "shape of the solution")
    res = [float(t) for t in h["residual_norm"]]
    same(len(res), its + 1, "number of reported residual norms")
    nb = np.linalg.norm(bd)
    want = [np.linalg.norm(r0)]
    for k in range(1, its + 1):
        W = PB @ K[:, :k]
        y, *_ = np.linalg.lstsq(W, r0, rcond=None)
        want.append(np.linalg.norm(r0 - W @ y))
    for k, (a, c) in enumerate(zip(res, want)):
        req(abs(a - c / nb) <= 1e-6 * np.linalg.norm(r0) / nb, f"reported residual norm {a:.6e} instead of {c / nb:.6e} in step {k}")
    req(all(p >= q * (1 - 1e-7) - 1e-12 for p, q in zip(res, res[1:])), "reported residual norms increase")
    xs = xd + K @ y
    close(den(x).ravel(), xs, "final tensor is the best approximation in the Krylov space", 1e-5, np.linalg.norm(xs - xd) + np.linalg.norm(xs) + 1e-300)
    t = np.linalg.norm(P @ (bd - B @ den(x).ravel()))
    req(abs(t - want[-1]) <= 1e-5 * np.linalg.norm(r0), f"residual of the final tensor {t:.3e} instead of {want[-1]:.3e}")
    V = np.array([den(v).ravel() for v in h["nu_list"]]).T
    close(V.T @ V, np.eye(V.shape[1]), "Krylov basis orthonormal", 1e-6)


@case("C23", 2)
def long_runs(g):
    """Many iterations on operators for which GMRES gains little per step: the recurrences stay complete."""
    d = g.i(2, 3)
    shape = tuple(g.i(4, 8) for _ in range(2)) if d == 2 else tuple(g.i(2, 4) for _ in range(3))
    n = int(np.prod(shape))
    sym = g.coin(0.25)
    terms = []
    for _ in range(g.i(1, 2)):
        qs = [np.linalg.qr(g.r.normal(size=(m, m)))[0] for m in shape]
        if sym:
            qs = [q @ np.diag(np.sign(g.r.normal(size=len(q))) * (1 + g.r.random(len(q)))) @ q.T for q in qs]
        terms.append(qs)
    maps, B = [], np.zeros((n, n))
    for c, qs in zip((1.0, g.pick([0.3, 0.6])), terms):
        maps.append(MPO([q.T.reshape(1, m, m, 1) for q, m in zip(qs, shape)]) * c)
        K = np.eye(1)
        for q in qs:
            K = np.kron(K, q)
        B = B + c * K
    b = g.tt(shape, plain=True, hi=3)
    bd = den(b).ravel()
    its = min(n - 1, g.i(12, 34))
    K, full = krylov(B, bd, its)
    # (Gram-Schmidt loses orthogonality in proportion to this condition number)
    if not full or np.linalg.cond(np.column_stack([bd / np.linalg.norm(bd), B @ K[:, :its]])) > 1e5:
        raise Skip
    meth = g.pick(["pairwise", "exact"])
    g.note(shape=shape, its=its, sym=sym, method=meth, terms=len(maps))
    x, h = tt_sum_gmres(TTLinearMapSum(maps), b, max_rank=10**4, tolerance=0.0, maxiter=its, symmetric=sym, rounding_method=meth, save_basis=True)
    V = np.array([den(v).ravel() for v in h["nu_list"]]).T
    if sym and np.linalg.norm(V.T @ V - np.eye(V.shape[1])) > 1e-7:
        raise Skip      # the short recurrence loses orthogonality in floating point
    close(V.T @ V, np.eye(V.shape[1]), f"Krylov basis of {its} iterations orthonormal", 1e-6)
    res = [float(t) for t in h["residual_norm"]]
    same(len(res), its + 1, "number of reported residual norms")
    nb = np.linalg.norm(bd)
    for k in range(1, its + 1):
        W = B @ K[:, :k]
        y, *_ = np.linalg.lstsq(W, bd, rcond=None)
        c = np.linalg.norm(bd - W @ y) / nb
        req(abs(res[k] - c) <= 1e-6, f"reported residual norm {res[k]:.6e} instead of {c:.6e} in step {k} of {its}")
    t = np.linalg.norm(bd - B @ den(x).ravel()) / nb
    req(abs(t - c) <= 1e-5, f"residual of the final tensor {t:.3e} instead of {c:.3e}")


@case("C23", 2)
def stagnating(g):
    """Cyclic shifts and other permutations: no progress for some steps, then all of it."""
    n = g.i(3, 9)
    shape = [1, n] if g.coin(0.3) else [n, g.i(1, 2)]
    k = shape.index(n)
    P = np.eye(n)[np.roll(np.arange(n), 1)] if g.coin(0.6) else np.eye(n)[g.r.permutation(n)]
    if g.coin(0.4):
        P = P * g.r.uniform(0.5, 2, size=n)
    M = MPO([(P.T if j == k else np.eye(s)).reshape(1, s, s, 1) for j, s in enumerate(shape)])
    v = np.zeros(n)
    v[g.r.permutation(n)[:g.i(1, 2)]] = 1 + g.r.random()
    b = TensorTrain([(v if j == k else np.ones(s)).reshape(1, s, 1) for j, s in enumerate(shape)])
    bd = v / np.linalg.norm(v)
    K, _ = krylov(P, bd, n)
    want = [1.0]
    for j in range(1, K.shape[1] + 1):
        W = P @ K[:, :j]
        y, *_ = np.linalg.lstsq(W, bd, rcond=None)
        want.append(np.linalg.norm(bd - W @ y))
    tol = 1e-6
    hit = [j for j, w in enumerate(want) if w < tol]
    if not hit:
        raise Skip
    mx = hit[0] + g.i(0, 2)
    meth = g.pick(["pairwise", "exact"])
    g.note(shape=shape, want=want, maxiter=mx, method=meth)
    x, h = tt_sum_gmres(TTLinearMapSum([M]), b, max_rank=10, tolerance=tol, maxiter=mx, rounding_method=meth)
    res = [float(t) for t in h["residual_norm"]]
    same(len(res) - 1, hit[0], f"number of iterations (residual norms {res} instead of {want})")
    for j in range(hit[0] + 1):
        req(abs(res[j] - want[j]) <= 1e-7, f"reported residual norm {res[j]:.6e} instead of {want[j]:.6e} in step {j}")
    X = den(x)
    t = np.linalg.norm(np.moveaxis(np.tensordot(P, X, axes=([1], [k])), 0, k) - den(b)) / np.linalg.norm(den(b))
    req(t <= 1e-6, f"residual of the final tensor {t:.3e}")


@case("C23", 4)
def stopping(g):
    sym = g.coin(0.2)
    shape, n, A, B = system(g, sym)
    b = g.tt(shape, plain=True, hi=3)
    x0 = g.tt(shape, plain=True, hi=2) if g.coin(0.3) else None
    tol = g.pick([1e-1, 1e-2, 1e-4, 1e-6, 1e-8])
    mx = g.pick([1, 2, 5, 40])
    meth = g.pick(["pairwise", "exact"])
    g.note(tol=tol, maxiter=mx, sym=sym, method=meth)
    x, h = tt_sum_gmres(A, b, max_rank=10**4, x0=x0, tolerance=tol, maxiter=mx, symmetric=sym, rounding_method=meth)
    res = [float(t) for t in h["residual_norm"]]
    req(len(res) - 1 <= mx, f"{len(res) - 1} iterations with limit {mx}")
    for k, t in enumerate(res[:-1]):
        req(not t < tol, f"went on although the residual norm {t:.3e} was below {tol}")
    if len(res) - 1 < mx:
        req(res[-1] < tol, f"stopped at residual norm {res[-1]:.3e} with tolerance {tol}")
    nb = np.linalg.norm(den(b))
    xd = den(x0).ravel() if x0 is not None else np.zeros(n)
    nr = np.linalg.norm(den(b).ravel() - B @ xd) / nb
    req(abs(res[0] - nr) <= 1e-8 * (nr + 1), "first reported residual norm")
    t = np.linalg.norm(den(b).ravel() - B @ den(x).ravel()) / nb
    # thresholded rounding perturbs the residual by a bounded multiple of the tolerance
    req(abs(t - res[-1]) <= 200 * len(res) * tol * max(1.0, nr), f"true residual {t:.3e}, reported {res[-1]:.3e}, tolerance {tol}")
    req(np.all(np.isfinite(den(x))), "non-finite solution")


@case("C23", 2)
def loose_tolerance(g):
    """One mode holds all the data, so that rounding has nothing to cut: with any tolerance the steps are those of
    GMRES, and it stops exactly at the first residual norm below the tolerance."""
    n = g.i(3, 9)
    shape = [1] * g.i(2, 3)
    shape[g.i(0, len(shape) - 1)] = n
    shape = tuple(shape)
    kind = g.i(0, 2)
    D = np.diag(10.0 ** -np.linspace(0, g.r.uniform(0, 5), n))
    if kind == 1:
        q = np.linalg.qr(g.r.normal(size=(n, n)))[0]
        D = q @ D @ q.T
    if kind == 2:
        D = D + 1e-2 * g.r.normal(size=(n, n))
    if np.linalg.cond(D) > 1e6:
        raise Skip
    M = MPO([(D.T if s > 1 else np.ones((1, 1))).reshape(1, s, s, 1) for s in shape])
    b = TensorTrain([g.r.normal(size=(1, s, 1)) for s in shape])
    A = TTLinearMapSum([M])
    tol = 10.0 ** -g.r.uniform(0, 7)
    bd = den(b).ravel()
    nb = np.linalg.norm(bd)
    K, full = krylov(D, bd, n)
    want = [1.0]
    ys = [np.zeros(n)]
    for k in range(1, K.shape[1] + 1):
        W = D @ K[:, :k]
        y, *_ = np.linalg.lstsq(W, bd, rcond=1e-16)
        want.append(np.linalg.norm(bd - W @ y) / nb)
        ys.append(K[:, :k] @ y)
    hit = [k for k, w in enumerate(want) if w < tol]
    if not hit or hit[0] == 0 or any(abs(w - tol) < 1e-2 * tol for w in want):
        raise Skip
    meth = g.pick(["pairwise", "exact"])
    mx = hit[0] + g.i(0, 2) if g.coin(0.7) else max(1, hit[0] - 1)
    g.note(shape=shape, tol=tol, maxiter=mx, method=meth, kind=kind)
    x, h = tt_sum_gmres(A, b, max_rank=5, tolerance=tol, maxiter=mx, rounding_method=meth)
    res = [float(t) for t in h["residual_norm"]]
    its = min(mx, hit[0])
    same(len(res) - 1, its, f"number of iterations with tolerance {tol:.3e} (residual norms {want})")
    for k in range(its + 1):
        req(abs(res[k] - want[k]) <= 1e-6, f"reported residual norm {res[k]:.6e} instead of {want[k]:.6e} in step {k}")
    t = np.linalg.norm(bd - D @ den(x).ravel()) / nb
    req(abs(t - want[its]) <= 1e-6, f"residual of the final tensor {t:.6e} instead of {want[its]:.6e}")


@case("C23", 2)
def solved_start(g):
    """The initial value solves the system already, or the right-hand side is zero."""
    shape, n, A, B = system(g)
    x0 = g.tt(shape, plain=True, hi=2)
    b = A(x0)
    bt = b.tensors[0]
    if g.coin(0.3):
        bt = bt * 0.0
        x0 = None if g.coin() else x0 * 0.0
    elif len(shape) > 1:
        for t in b.tensors[1:]:
            bt = bt.add(t)
    else:
        bt = TensorTrain([sum(t.cores[0] for t in b.tensors)])
    x, h = tt_sum_gmres(A, bt, max_rank=10**4, x0=x0, tolerance=1e-8, maxiter=4)
    e = np.linalg.norm(den(bt).ravel() - B @ den(x).ravel())
    req(e <= 1e-7 * (np.linalg.norm(den(bt)) + 1e-300), "the solution of a solved system is not a solution")


@case("C23", 1)
def limited_rank(g):
    """With ranks capped the solver still returns a tensor train of the right shape and admissible rank."""
    shape, n, A, B = system(g)
    b = g.tt(shape, plain=True, hi=3)
    r = g.i(1, 3)
    meth = g.pick(METHODS)
    x, h = tt_sum_gmres(A, b, max_rank=r, tolerance=1e-3, maxiter=g.i(1, 4), rounding_method=meth, final_round_rank=g.pick([None, 2]))
    same(tup(x.shape), shape, "shape of the solution")
