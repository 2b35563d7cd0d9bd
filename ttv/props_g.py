"""Contracts of C27 (pseudo-inverse products, projectors, example tensors)."""
from .scen import scenario


def _grid(e, vecs):
    """sum of the vectors along the axes of a tensor"""
    d, s = len(vecs), None
    for k, v in enumerate(vecs):
        v = v.reshape((1,) * k + (v.shape[0],) + (1,) * (d - 1 - k))
        s = v if s is None else s + v
    return s


def _hilbert(d):
    def f(e):
        n = e.size("n")
        X = e.utils.hilbert_tensor(d, n)
        e.shape_is("shape", X.shape, (n,) * d)
        e.eq("entries", X, 1 / (_grid(e, [e.np.arange(n) for _ in range(d)]) + 1))
    return f


def _sqrt(d, given):
    def f(e):
        shape = e.shape(d)
        a, b = (e.nonzero("a"), e.scalar("b")) if given else (-0.2, 2)
        Y = e.np.sqrt(abs(_grid(e, [e.np.linspace(a, b, n) for n in shape])))
        nrm = e.np.linalg.norm(Y)
        X = e.utils.sqrt_tensor(shape, a, b) if given else e.utils.sqrt_tensor(shape)
        e.shape_is("shape", X.shape, shape)
        e.eq("entries", X * nrm, Y)
    return f


def _decay(d):
    def f(e):
        shape = e.shape(d)
        X = e.utils.power_decay_tensor(shape, seed=e.seed("s"))
        e.shape_is("shape", X.shape, shape)
    return f


for d in (1, 2, 3, 4):
    scenario("C27", f"hilbert_tensor order {d}", d=d, fns=["hilbert_tensor"])(_hilbert(d))
    for given in (False, True):
        scenario("C27", f"sqrt_tensor{' given ends' if given else ''} order {d}", d=d, fns=["sqrt_tensor"])(_sqrt(d, given))
    if d > 1:
        scenario("C27", f"power_decay_tensor order {d}", d=d, fns=["power_decay_tensor"])(_decay(d))


def _left(cond):
    def f(e):
        A, B = e.arr("A", (e.size("m"), e.size("n"))), None
        B = e.arr("B", (A.shape[0], e.size("k")))
        X = e.utils.left_mul_pinv(A, B, **cond)
        e.shape_is("shape", X.shape, (A.shape[1], B.shape[1]))
        e.eq("pinv(A) B", X, e.np.linalg.pinv(A) @ B)
    return f


def _right(cond):
    def f(e):
        A = e.arr("A", (e.size("k"), e.size("n")))
        B = e.arr("B", (e.size("m"), A.shape[1]))
        X = e.utils.right_mul_pinv(A, B, **cond)
        e.shape_is("shape", X.shape, (A.shape[0], B.shape[0]))
        e.eq("A pinv(B)", X, A @ e.np.linalg.pinv(B))
    return f


def _projector(two):
    def f(e):
        X = e.arr("X", (e.size("n"), e.size("k")))
        Y = e.arr("Y", (X.shape[0], e.size("l"))) if two else X
        P = e.utils.projector(X, Y) if two else e.utils.projector(X)
        e.shape_is("shape", P.shape, (X.shape[0], X.shape[0]))
        e.eq("oblique projector", P, X @ e.np.linalg.pinv(Y.T @ X) @ Y.T)
    return f


for c in ({}, {"cond": None}):
    scenario("C27", f"left_mul_pinv{' given cutoff' if c else ''}", d=1, unbounded=True, fns=["left_mul_pinv"])(_left(c))
    scenario("C27", f"right_mul_pinv{' given cutoff' if c else ''}", d=1, unbounded=True, fns=["right_mul_pinv"])(_right(c))
for two in (True, False):
    scenario("C27", f"projector{' of two spaces' if two else ''}", d=1, unbounded=True, fns=["projector"])(_projector(two))
