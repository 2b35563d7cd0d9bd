"""Contracts for operands that are the same object, and for objects whose data are replaced between two calls."""
from .scen import scenario
from .props_a import FORMATS
from .props_c import DRMS, drm, fixed_drms, is_container, is_sketch, mats, ranks, stream, container
from .props_d import apply_dense, mpo


# ------------------------------------------------------------------ the same object twice
def _twice(k, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(k, "X", shape)
        a, b = e.scalar("a"), e.scalar("b")
        fr = e.frame(X)
        S = X + X
        e.eq("X + X", S.to_numpy(), D + D)
        e.eq("a sum of the same tensor twice", e.tensor.TensorSum([X, X]).to_numpy(), D + D)
        e.eq("X - X", (X - X).to_numpy(), D - D, scale=e.big(D))
        e.eq("X - X * a", (X - X * a).to_numpy(), D - D * a, scale=e.big(D))
        if not k.startswith("sum"):
            e.eq("coefficients", (S * [a, b]).to_numpy(), D * a + D * b, scale=e.big(D))
        e.eq("S + S", (S + S).to_numpy(), D * 4)
        e.eq("S - S", (S - S).to_numpy(), D - D, scale=e.big(D))
        e.eq("S + X", (S + X).to_numpy(), D * 3)
        e.eq("X + S", (X + S).to_numpy(), D * 3)
        e.eq("S itself", S.to_numpy(), D * 2)
        e.frame_ok("unchanged", fr)
        S += S
        e.eq("S += S", S.to_numpy(), D * 4)
        if not k.startswith("sum"):
            S += X
            e.eq("S += X", S.to_numpy(), D * 5)
            e.frame_ok("unchanged by +=", fr)
    return f


def _twice_dot(k, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(k, "X", shape)
        Y, E = e.make("tt", "Y", shape)
        S = X + X
        fr = e.frame(X, S)
        n = e.inner(D, D)
        e.seq("<X, X>", X.dot(X), n)
        e.seq("X @ X", X @ X, n)
        e.seq("<S, S>", S.dot(S), n * 4)
        e.seq("<S, X>", S.dot(X), n * 2)
        e.seq("<X, S>", X.dot(S), n * 2)
        e.seq("<S + S, Y>", (S + S).dot(Y), e.inner(D, E) * 4)
        R = X + Y + X
        e.seq("<R, R>", R.dot(R), n * 4 + e.inner(D, E) * 4 + e.inner(E, E))
        e.frame_ok("unchanged", fr)
    return f


def _twice_size(k, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(k, "X", shape)
        Y, E = e.make("tt", "Y", shape)
        n, m = X.size, Y.size
        many = len(X.tensors) if k.startswith("sum") else 1
        for what, S, want, s in (("X + X", X + X, n * 2, 2 * many), ("X + Y + X", X + Y + X, n * 2 + m, 2 * many + 1), ("Y + X + X", Y + X + X, n * 2 + m, 2 * many + 1)):
            e.ieq("size of " + what, S.size, want)
            e.ieq("summands of " + what, S.num_summands, s)
    return f


def _twice_add(d):
    def f(e):
        shape = e.shape(d)
        X, D = e.tt("X", shape)
        W = e.tensor.TensorTrain(list(X.cores))          # another object with the same arrays
        fr = e.frame(X)
        for what, Z in (("itself", X.add(X)), ("a train with the same cores", X.add(W))):
            e.shape_is("shape with " + what, Z.shape, shape)
            e.shape_is("ranks are summed with " + what, Z.rank, tuple(a + a for a in X.rank))
            e.eq("the sum with " + what, Z.to_numpy(), D * 2)
        e.frame_ok("unchanged", fr)
    return f


for k in FORMATS:
    scenario("C03", f"{k} twice in a sum", d=2, fns=["Tensor.__add__", "TensorSum.__add__", "TensorSum.__iadd__"])(_twice(k, 2))
    scenario("C25", f"size of sums with the same {k} twice", d=2, fns=["size", "num_summands"])(_twice_size(k, 2))
for k in ("dense", "sparse", "tt", "cp", "tucker"):
    scenario("C04", f"{k} with itself and in a sum with itself", d=2, fns=["dot"])(_twice_dot(k, 2))
for d in (2, 3):
    scenario("C06", f"tensor train added to itself order {d}", d=d, fns=["TensorTrain.add"])(_twice_add(d))


def _twice_sketch(k, dn, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(k, "X", shape)
        L, R, l, r = fixed_drms(e, dn, dn, shape, True)
        Y, Z = mats(e, L, shape), mats(e, R, shape)
        fr = e.frame(X, L, R)
        is_sketch(e, stream(e, e.tensor.TensorSum([X, X]), L, R, l, r), D + D, Y, Z, shape, l, r, "the same summand twice")
        S = stream(e, X, L, R, l, r)
        is_sketch(e, S + X, D + D, Y, Z, shape, l, r, "updated with the same tensor")
        is_sketch(e, S + X + X, D * 3, Y, Z, shape, l, r, "updated twice with the same tensor")
        is_sketch(e, S, D, Y, Z, shape, l, r, "the first sketch")
        e.frame_ok("unchanged", fr)
    return f


for k, dn in (("tt", "TensorTrainDRM"), ("sparse", "SparseGaussianDRM"), ("dense", "DenseGaussianDRM")):
    scenario("C14", f"{k} sketch updated with the same tensor, {dn}", d=2, fns=["SketchedTensorTrain.__add__"])(_twice_sketch(k, dn, 2))


def _twice_container(d):
    def f(e):
        shape = e.shape(d)
        l, r = ranks(e, "l", d), ranks(e, "r", d)
        S, P, O = container(e, "S", shape, l, r)
        fr = e.frame(S)
        is_container(e, "S + S", S + S, [a + a for a in P], [a + a for a in O], shape, l, r)
        is_container(e, "S - S", S - S, [a - a for a in P], [a - a for a in O], shape, l, r)
        e.frame_ok("unchanged", fr)
    return f


scenario("C14", "container with itself", d=2, fns=["SketchContainer.__add__", "SketchContainer.__sub__"])(_twice_container(2))


def _twice_maps(e):
    ins, outs = e.shape(2, "i"), e.shape(2, "o")
    M, _, D, _ = mpo(e, "M", ins, outs)
    X, E = e.tt("X", ins)
    c = e.scalar("c")
    fr = e.frame(M, X)
    A = e.gmres.TTLinearMapSum([M, M])
    e.eq("the same map twice", A(X).to_numpy(), apply_dense(e, D, E) * 2)
    e.eq("the same map twice, the same tensor twice", A(X + X).to_numpy(), apply_dense(e, D, E) * 4)
    e.eq("multiples of the same map", e.gmres.TTLinearMapSum([M, M * c])(X).to_numpy(), apply_dense(e, D, E) + apply_dense(e, D, E) * c)
    e.frame_ok("unchanged", fr)


scenario("C21", "the same map and tensor twice", d=2, fns=["TTLinearMapSum.__call__"])(_twice_maps)


def _twice_round(method):
    def f(e):
        shape = e.shape(2)
        X, D = e.tt("X", shape)
        W = e.tensor.TensorTrain(list(X.cores))
        q = e.size("q")
        fr = e.frame(X)
        A = e.gmres.round_tt_sum(e.tensor.TensorSum([X, X]), q, None, method)
        B = X.add(W).round(None, q)
        e.shape_is("ranks: those of rounding the direct sum", A.rank, B.rank)
        e.eq("same tensor as rounding the direct sum", e.dense_tt(A.cores), e.dense_tt(B.cores))
        e.frame_ok("unchanged", fr)
    return f


for m in ("exact", "pairwise"):
    scenario("C22", f"{m} of the same tensor train twice", d=2, fns=["round_tt_sum"])(_twice_round(m))


# ------------------------------------------------------------------ data replaced between two calls
def renew(e, X, k, name="N"):
    """replaces some of the data X stores by new arrays of the same shapes; the dense array it denotes then"""
    if k == "dense":
        X.data = e.arr(name, tuple(X.shape))
        return X.data
    if k == "sparse":
        X.entries = e.arr(name, tuple(X.entries.shape))
        return e.dense_sparse(tuple(X.shape), X.indices, X.entries)
    if k == "tt":
        X[1] = e.arr(name, tuple(X.cores[1].shape))
        return e.dense_tt(X.cores)
    if k == "cp":
        X[0] = e.arr(name, tuple(X.cores[0].shape))
        return e.dense_cp(X.cores)
    X.core = e.arr(name, tuple(X.core.shape))
    return e.dense_tucker(X.factors, X.core)


def _renewed(k, d, read):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(k, "X", shape)
        read(e, X, D, shape, k, "at first")
        D = renew(e, X, k)
        read(e, X, D, shape, k, "after the data were replaced")
    return f


def _read_dense(e, X, D, shape, k, what):
    e.eq("dense array " + what, X.to_numpy(), D)
    e.eq("dense tensor " + what, X.dense().to_numpy(), D)
    if k == "dense":
        e.eq("sparse tensor " + what, X.to_sparse().to_numpy(), D)


def _read_T(e, X, D, shape, k, what):
    e.eq("transpose " + what, X.T.to_numpy(), e.rev(D))
    e.eq("transposed twice " + what, X.T.T.to_numpy(), D)


def _read_arith(e, X, D, shape, k, what):
    c = e.nonzero("c")
    e.eq("multiple " + what, (X * c).to_numpy(), D * c)
    e.eq("quotient " + what, (X / c).to_numpy(), D * (1 / c))
    e.eq("negative " + what, (-X).to_numpy(), D * -1)
    e.eq("sum " + what, (X + X * c).to_numpy(), D + D * c, scale=e.big(D))


def _read_dot(e, X, D, shape, k, what):
    Y, E = e.make("tt", "Y" + what[-1], shape)
    e.seq("<X, X> " + what, X.dot(X), e.inner(D, D))
    e.seq("<X, Y> " + what, X.dot(Y), e.inner(D, E))
    e.seq("<Y, X> " + what, Y.dot(X), e.inner(D, E))
    if k == "tt":
        n = X.norm()
        e.seq("norm " + what, n, e.np.linalg.norm(D))


def _read_gather(e, X, D, shape, k, what):
    pts = e.points("p" + what[-1], shape, e.size("np" + what[-1], lo=0))
    e.eq("gathered entries " + what, X.gather(pts), e.at_points(D, pts))


def _read_tt(e, X, D, shape, k, what):
    O = X.orthogonalize()
    e.eq("orthogonalized " + what, e.dense_tt(O.cores), D)
    e.left_orth("first core " + what, O.cores[0])


def _read_add(e, X, D, shape, k, what):
    Y, E = e.tt("Y" + what[-1], shape)
    e.eq("direct sum " + what, X.add(Y).to_numpy(), D + E)
    e.eq("direct sum, other order, " + what, Y.add(X).to_numpy(), D + E)


for k in ("dense", "sparse", "tt", "cp", "tucker"):
    scenario("C01", f"{k} tensor whose data are replaced", d=2, fns=[f"{k}.to_numpy"])(_renewed(k, 2, _read_dense))
    scenario("C02", f"{k} tensor whose data are replaced", d=2, fns=[f"{k}.T"])(_renewed(k, 2, _read_T))
    scenario("C03", f"{k} tensor whose data are replaced", d=2, fns=[f"{k}.__mul__"])(_renewed(k, 2, _read_arith))
    scenario("C04", f"{k} tensor whose data are replaced", d=2, fns=[f"{k}.dot"])(_renewed(k, 2, _read_dot))
    if k in ("sparse", "tt", "cp"):
        scenario("C05", f"{k} tensor whose data are replaced", d=2, fns=[f"{k}.gather"])(_renewed(k, 2, _read_gather))
scenario("C06", "tensor train whose cores are replaced", d=2, fns=["TensorTrain.add"])(_renewed("tt", 2, _read_add))
scenario("C07", "tensor train whose cores are replaced", d=2, fns=["TensorTrain.orthogonalize"])(_renewed("tt", 2, _read_tt))


def _renewed_sketch(k, dn, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(k, "X", shape)
        L, R, l, r = fixed_drms(e, dn, dn, shape, True)
        Y, Z = mats(e, L, shape), mats(e, R, shape)
        S = stream(e, X, L, R, l, r)
        is_sketch(e, S, D, Y, Z, shape, l, r, "at first")
        E = renew(e, X, k)
        is_sketch(e, stream(e, X, L, R, l, r), E, Y, Z, shape, l, r, "after the data were replaced")
        is_sketch(e, S + X, D + E, Y, Z, shape, l, r, "updated after the data were replaced")
        is_sketch(e, S, D, Y, Z, shape, l, r, "the first sketch")
    return f


for k, dn in (("tt", "TensorTrainDRM"), ("sparse", "SparseGaussianDRM"), ("dense", "DenseGaussianDRM"), ("cp", "TensorTrainDRM"), ("tucker", "TensorTrainDRM")):
    scenario("C13", f"{k} tensor whose data are replaced, {dn}", d=2, fns=["stream_sketch"])(_renewed_sketch(k, dn, 2))


def _read_round(e, X, D, shape, k, what):
    q = e.size("q" + what[-1])
    fresh = e.tensor.TensorTrain(list(X.cores))
    A, B = X.round(None, q), fresh.round(None, q)
    e.shape_is("ranks of the rounded train " + what, A.rank, B.rank)
    e.eq("rounded train " + what, e.dense_tt(A.cores), e.dense_tt(B.cores))


def _read_svd(e, X, D, shape, k, what):
    fresh = e.tensor.TensorTrain(list(X.cores))
    A, B = X.svdvals(), fresh.svdvals()
    e.ieq("number of lists " + what, len(A), len(B))
    for i, (a, b) in enumerate(zip(A, B)):
        e.eq(f"singular values {i} " + what, a, b)


scenario("C08", "tensor train whose cores are replaced", d=2, fns=["TensorTrain.round"])(_renewed("tt", 2, _read_round))
scenario("C10", "tensor train whose cores are replaced", d=2, fns=["TensorTrain.svdvals"])(_renewed("tt", 2, _read_svd))
