"""Contracts of C01-C10 (tensor formats) and C24, C25."""
from .scen import scenario

FORMATS = ("dense", "sparse", "tt", "cp", "tucker", "sum:tt+cp", "sum:sparse+tucker")


# ------------------------------------------------------------------ C01
def _c01(kind, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(kind, "X", shape)
        fr = e.frame(X)
        Y = X.to_numpy()
        e.shape_is("dense array has the tensor's shape", Y.shape, shape)
        e.eq("entries are given by the defining formula", Y, D)
        e.shape_is("reported shape", X.shape, shape)
        e.ieq("reported order", X.ndim, d)
        if kind == "tt":
            e.shape_is("reported rank", X.rank, tuple(c.shape[0] for c in X.cores[1:]))
        if kind == "cp":
            e.ieq("reported rank", X.rank, X.cores[0].shape[1])
        if kind == "tucker":
            e.shape_is("reported rank", X.rank, X.core.shape)
        Z = X.dense()
        e.eq("dense() holds the same array", Z.data, D)
        e.isa("dense() is a DenseTensor", Z, e.tensor.DenseTensor)
        e.frame_ok("converting leaves the tensor unchanged", fr)
    return f


for k in FORMATS:
    for d in (1, 2, 3, 4):
        if k == "sum:sparse+tucker" and d > 2:
            continue
        scenario("C01", f"{k}.to_numpy order {d}", d=d, fns={"dense": ["DenseTensor.to_numpy"], "sparse": ["SparseTensor.to_numpy"], "tt": ["TensorTrain.to_numpy"],
                 "cp": ["CPTensor.to_numpy"], "tucker": ["TuckerTensor.to_numpy"]}.get(k, ["TensorSum.to_numpy"]))(_c01(k, d))


def _c01_roundtrip(d):
    def f(e):
        shape = e.shape(d)
        X, D = e.dense("X", shape)
        fr = e.frame(X)
        S = X.to_sparse()
        e.shape_is("sparse shape", S.shape, shape)
        e.eq("dense -> sparse -> dense", S.to_numpy(), D)
        e.frame_ok("to_sparse leaves the tensor unchanged", fr)
    return f


for d in (1, 2, 3):
    scenario("C01", f"to_sparse round trip order {d}", d=d, fns=["DenseTensor.to_sparse"])(_c01_roundtrip(d))


# ------------------------------------------------------------------ C02
def _c02(kind, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(kind, "X", shape)
        fr = e.frame(X)
        XT = X.T
        e.shape_is("transposed shape", XT.shape, shape[::-1])
        e.eq("entry (i1..id) of X.T is entry (id..i1) of X", XT.to_numpy(), e.rev(D))
        e.isa("same format", XT, type(X))
        e.eq("transposing twice", XT.T.to_numpy(), D)
        e.shape_is("shape of the double transpose", XT.T.shape, shape)
        e.frame_ok("transposing leaves the tensor unchanged", fr)
    return f


for k in FORMATS:
    for d in (1, 2, 3, 4):
        if k == "sum:sparse+tucker" and d > 2:
            continue
        scenario("C02", f"{k}.T order {d}", d=d, fns=[f"{k}.T"])(_c02(k, d))


# ------------------------------------------------------------------ C03
def _c03(k1, k2, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(k1, "X", shape)
        Y, E = e.make(k2, "Y", shape)
        fr = e.frame(X, Y)
        e.eq("X + Y", (X + Y).to_numpy(), D + E)
        e.eq("X - Y", (X - Y).to_numpy(), D - E)
        e.shape_is("shape of the sum", (X + Y).shape, shape)
        e.frame_ok("addition leaves the operands unchanged", fr)
    return f


def _c03u(k, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(k, "X", shape)
        c = e.nonzero("c")
        fr = e.frame(X)
        e.eq("X * c", (X * c).to_numpy(), D * c)
        e.eq("c * X", (c * X).to_numpy(), D * c)
        e.eq("X / c", (X / c).to_numpy(), D * (1 / c))
        e.eq("-X", (-X).to_numpy(), D * -1)
        e.eq("X - X", (X - X).to_numpy(), D - D, scale=e.big(D))
        e.shape_is("shape", (X * c).shape, shape)
        e.isa("format kept", X * c, type(X))
        e.frame_ok("scaling leaves the operand unchanged", fr)
    return f


PAIRS = [(a, b) for a in ("dense", "sparse", "tt", "cp", "tucker", "sum:tt+cp") for b in ("dense", "sparse", "tt", "cp", "tucker", "sum:dense+sparse")]
for a, b in PAIRS:
    scenario("C03", f"{a} + {b} order 2", d=2, fns=["Tensor.__add__", "Tensor.__sub__", "TensorSum.__add__"])(_c03(a, b, 2))
for k in FORMATS:
    for d in (1, 2, 3):
        scenario("C03", f"scaling {k} order {d}", d=d, fns=[f"{k}.__mul__", "Tensor.__rmul__", "Tensor.__truediv__", "Tensor.__neg__"])(_c03u(k, d))


def _c03sum(e):
    shape = e.shape(2)
    X, D = e.make("sum:tt+cp+dense", "X", shape)
    cs = [e.scalar(f"c{i}") for i in range(3)]
    Ds = [t.to_numpy() for t in X.tensors]
    fr = e.frame(X)
    Y = X * cs
    e.eq("sum of coefficients times summands", Y.to_numpy(), Ds[0] * cs[0] + Ds[1] * cs[1] + Ds[2] * cs[2])
    e.frame_ok("the sum is unchanged", fr)


scenario("C03", "TensorSum * list", d=2, fns=["TensorSum.__mul__"])(_c03sum)


def _c03iadd(k):
    def f(e):
        shape = e.shape(2)
        X, D = e.make("sum:tt+cp", "X", shape)
        Y, E = e.make(k, "Y", shape)
        fr = e.frame(Y)
        old = list(X.tensors)
        fo = e.frame(*old)
        X += Y
        e.eq("X += Y", X.to_numpy(), D + E)
        e.true("the old summands are kept", all(a is b for a, b in zip(old, X.tensors)))
        e.frame_ok("the right operand is unchanged", fr)
        e.frame_ok("the old summands are unchanged", fo)
    return f


for k in ("tt", "sparse", "sum:dense+tt"):
    scenario("C03", f"TensorSum += {k}", d=2, fns=["TensorSum.__iadd__"])(_c03iadd(k))


# ------------------------------------------------------------------ C04
def _c04(k1, k2, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(k1, "X", shape)
        Y, E = e.make(k2, "Y", shape)
        fr = e.frame(X, Y)
        e.seq("inner product", X.dot(Y), e.inner(D, E))
        e.seq("@", X @ Y, e.inner(D, E))
        e.frame_ok("dot leaves the operands unchanged", fr)
    return f


for a, b in PAIRS:
    for d in (1, 2, 3):
        if d == 3 and not (a in ("tt", "sparse", "cp") and b in ("tt", "dense", "cp")):
            continue
        scenario("C04", f"{a}.dot({b}) order {d}", d=d, fns=[f"{a}.dot", f"{b}.dot"])(_c04(a, b, d))


def _c04n(k, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(k, "X", shape)
        fr = e.frame(X)
        nn = X.norm()
        e.seq("norm squared", nn * nn, e.inner(D, D), scale=None) if not e.symbolic else e.seq("norm", nn, e.np.linalg.norm(D))
        e.frame_ok("norm leaves the operand unchanged", fr)
    return f


for k in FORMATS:
    for d in (1, 2, 3):
        if k.startswith("sum:sparse") and d > 2:
            continue
        scenario("C04", f"{k}.norm order {d}", d=d, fns=[f"{k}.norm"])(_c04n(k, d))


def _c04e(k1, k2, d, relative, rmse):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(k1, "X", shape)
        Y, E = e.make(k2, "Y", shape)
        fr = e.frame(X, Y)
        err = X.error(Y, relative=relative, rmse=rmse)
        ref = e.np.linalg.norm(E)
        if relative and ref == 0:
            e.true("infinite relative error", err == float("inf"))
            return
        want = e.np.linalg.norm(D - E)
        if relative:
            want = want / ref
        if rmse:
            want = want / e.np.sqrt(e.np.prod(shape, dtype=float))
        e.seq("error", err, want)
        e.frame_ok("error leaves the operands unchanged", fr)
    return f


for a, b in (("tt", "tt"), ("dense", "tt"), ("tt", "dense"), ("sparse", "cp"), ("tucker", "tt"), ("sum:tt+cp", "tt"), ("cp", "cp")):
    for rel in (False, True):
        for rm in (False, True):
            scenario("C04", f"{a}.error({b}, relative={rel}, rmse={rm})", d=2, fns=["Tensor.error", "TensorTrain.error"])(_c04e(a, b, 2, rel, rm))


# ------------------------------------------------------------------ C05
def _c05(kind, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(kind, "X", shape)
        N = e.size("N", lo=2)
        pts = e.points("I", shape, N)
        fr = e.frame(X)
        got = X.gather(pts)
        e.eq("gathered entries", got, e.at_points(D, pts))
        e.frame_ok("gather leaves the tensor unchanged", fr)
    return f


for k in ("tt", "cp", "sparse"):
    for d in (1, 2, 3):
        scenario("C05", f"{k}.gather order {d}", d=d, fns=[f"{k}.gather"])(_c05(k, d))


def _c05s(m, d):
    def f(e):
        shape = e.shape(d)
        nnz = e.size("nnz", lo=2)
        X, D = e.sparse("X", shape, nnz)
        fr = e.frame(X)
        S = X.split(m)
        e.ieq("number of summands", S.num_summands, m)
        tot = 0
        for i, s in enumerate(S.tensors):
            e.shape_is(f"shape of summand {i}", s.shape, shape)
            tot = tot + s.nnz
        e.ieq("nonzeros in total", tot, nnz)
        e.eq("stored entries, in order", e.np.concatenate([s.entries for s in S.tensors]), X.entries)
        e.eq("sum of the summands", S.to_numpy(), D)
        e.frame_ok("split leaves the tensor unchanged", fr)
    return f


for m in (1, 2, 3):
    scenario("C05", f"split into {m}", d=2, fns=["SparseTensor.split"])(_c05s(m, 2))


# ------------------------------------------------------------------ C06
def _c06(d):
    def f(e):
        shape = e.shape(d)
        X, D = e.tt("X", shape)
        Y, E = e.tt("Y", shape)
        fr = e.frame(X, Y)
        Z = X.add(Y)
        e.isa("a tensor train", Z, e.tensor.TensorTrain)
        e.shape_is("shape", Z.shape, shape)
        e.shape_is("ranks are summed", Z.rank, tuple(a + b for a, b in zip(X.rank, Y.rank)))
        e.eq("the sum", Z.to_numpy(), D + E)
        e.frame_ok("add leaves the operands unchanged", fr)
    return f


for d in (2, 3, 4):
    scenario("C06", f"add order {d}", d=d, fns=["TensorTrain.add"])(_c06(d))


# ------------------------------------------------------------------ C07
def _c07(d):
    def f(e):
        shape = e.shape(d)
        X, D = e.tt("X", shape)
        fr = e.frame(X)
        O = X.orthogonalize()
        e.eq("represents the same tensor", e.dense_tt(O.cores), D)
        e.shape_is("shape", O.shape, shape)
        for i, C in enumerate(O.cores[:-1]):
            e.left_orth(f"core {i} left-orthogonal", C)
        l = 1
        for i in range(d - 1):
            e.true(f"rank {i} does not grow", O.rank[i] <= X.rank[i])
            e.true(f"rank {i} at most left rank times mode size", O.rank[i] <= l * shape[i])
            l = O.rank[i]
        last = O.cores[-1]
        e.seq("norm is the norm of the last core", e.np.sum(last * last), e.inner(D, D))
        e.frame_ok("orthogonalize leaves the operand unchanged", fr)
    return f


for d in (1, 2, 3, 4):
    scenario("C07", f"orthogonalize order {d}", d=d, fns=["TensorTrain.orthogonalize"])(_c07(d))
