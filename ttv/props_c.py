"""Contracts of C13-C17 and C26 (sketching)."""
from .scen import scenario
from .env import LET

# formats a DRM type supports, and the format whose sketch yields its matrices
DRMS = {
    "TensorTrainDRM": ("dense", ("dense", "sparse", "tt", "cp", "tucker")),
    "DenseGaussianDRM": ("dense", ("dense", "sparse", "tt")),
    "SparseGaussianDRM": ("sparse", ("sparse",)),
    "SparseSignDRM": ("sparse", ("sparse",)),
}


def drm(e, name, shape, rank, transpose, seed, **k):
    return getattr(e.drm, name)(rank, transpose=transpose, shape=shape, seed=seed, **k)


def dim(e, shape):
    r = 1
    for n in shape:
        r = r * n
    return r


def mats(e, D, shape, name="DRM"):
    """The matrices of a DRM, bond by bond: modes in natural order, then the column.  They are what its sketches of a full tensor
    of the reference format contain."""
    d = len(shape)
    np = e.np
    ref = DRMS[type(D).__name__][0]
    out = []
    if ref == "dense":
        X, _ = e.dense("ref", shape)
        for mu, M in enumerate(list(D.sketch_dense(X))):
            if D.transpose:
                n = tuple(shape[:mu:-1])
                A = M.reshape((M.shape[0],) + n)
                out.append(np.transpose(A, tuple(range(len(n), 0, -1)) + (0,)))
            else:
                n = tuple(shape[:mu + 1])
                A = M.reshape((M.shape[0],) + n)
                out.append(np.transpose(A, tuple(range(1, len(n) + 1)) + (0,)))
    else:
        X = e.full_sparse("ref", shape)
        for mu, M in enumerate(list(D.sketch_sparse(X))):
            A = np.transpose(M.reshape((M.shape[0],) + tuple(shape)), tuple(range(1, d + 1)) + (0,))
            if D.transpose:
                B = A[(0,) * (mu + 1)]
                full = np.einsum(_ones(mu + 1, d, True), B, *[np.ones((shape[i],)) for i in range(mu + 1)])
            else:
                B = A[(slice(None),) * (mu + 1) + (0,) * (d - mu - 1)]
                full = np.einsum(_ones(mu + 1, d, False), B, *[np.ones((shape[i],)) for i in range(mu + 1, d)])
            e.eq(f"{name} at bond {mu} depends only on the modes on its side", A, full)
            out.append(B)
    return out


def _ones(k, d, right):
    n = LET[:d]
    if right:
        return n[k:] + "z," + ",".join(n[:k]) + "->" + n + "z"
    return n[:k] + "z," + ",".join(n[k:]) + "->" + n + "z"


def want_omega(e, D, Y, Z, mu):
    n = LET[:len(D.shape)]
    return e.np.einsum(f"{n[:mu + 1]}y,{n},{n[mu + 1:]}z->yz", Y[mu], D, Z[mu])


def want_psi(e, D, Y, Z, mu):
    d = len(D.shape)
    n = LET[:d]
    ops, sub, out = [D], [n], n[mu]
    if mu > 0:
        ops.append(Y[mu - 1])
        sub.append(n[:mu] + "y")
        out = "y" + out
    if mu < d - 1:
        ops.append(Z[mu])
        sub.append(n[mu + 1:] + "z")
        out = out + "z"
    P = e.np.einsum(",".join(sub) + "->" + out, *ops)
    if mu == 0:
        P = P.reshape((1,) + tuple(P.shape))
    if mu == d - 1:
        P = P.reshape(tuple(P.shape) + (1,))
    return P


def ranks(e, name, d):
    return tuple(e.size(f"{name}{i}") for i in range(1, d))


def is_sketch(e, S, D, Y, Z, shape, l, r, what="sketch"):
    d = len(shape)
    e.ieq("number of Psi arrays", len(S.Psi_cores), d)
    e.ieq("number of Omega matrices", len(S.Omega_mats), d - 1)
    for mu in range(d - 1):
        e.eq(f"{what}: Omega {mu} is the contraction with both matrices", S.Omega_mats[mu], want_omega(e, D, Y, Z, mu))
    for mu in range(d):
        e.eq(f"{what}: Psi {mu} is the contraction with the matrices on both sides", S.Psi_cores[mu], want_psi(e, D, Y, Z, mu))
    e.shape_is("shape", S.shape, shape)
    e.shape_is("left rank", S.left_rank, l)
    e.shape_is("right rank", S.right_rank, r)


def _c13(kind, dn1, dn2, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(kind, "X", shape)
        l, r = ranks(e, "l", d), ranks(e, "r", d)
        L = drm(e, dn1, shape, l, False, e.seed("s1"))
        R = drm(e, dn2, shape, r, True, e.seed("s2"))
        Y, Z = mats(e, L, shape, "left DRM"), mats(e, R, shape, "right DRM")
        fr = e.frame(X, L, R)
        S = e.dispatch.general_sketch(X, L, R, e.dispatch.SketchMethod.streaming)
        is_sketch(e, S, D, Y, Z, shape, l, r)
        e.frame_ok("sketching leaves tensor and DRMs unchanged", fr)
    return f


FN13 = ["general_sketch", "sketch_omega_*", "sketch_psi_*", "DRM.sketch_*", "handle_transpose"]
for dn, (ref, kinds) in DRMS.items():
    for k in kinds:
        for d in (2, 3, 4):
            scenario("C13", f"{k} with {dn} order {d}", d=d, fns=FN13, tier="quick" if d < 4 else "thorough")(_c13(k, dn, dn, d))
for k, a, b in (("sparse", "TensorTrainDRM", "SparseGaussianDRM"), ("sparse", "SparseSignDRM", "DenseGaussianDRM"), ("tt", "DenseGaussianDRM", "TensorTrainDRM"),
                ("dense", "TensorTrainDRM", "DenseGaussianDRM")):
    scenario("C13", f"{k} with {a} and {b} order 3", d=3, fns=FN13)(_c13(k, a, b, 3))
for d in (2, 3):
    scenario("C13", f"sum:tt+cp with TensorTrainDRM order {d}", d=d, fns=FN13 + ["sum_sketch", "sketch_omega_sum", "sketch_psi_sum"])(_c13("sum:tt+cp", "TensorTrainDRM", "TensorTrainDRM", d))
    scenario("C13", f"sum:sparse+tt with DenseGaussianDRM order {d}", d=d, fns=FN13 + ["sum_sketch", "sketch_omega_sum", "sketch_psi_sum"])(_c13("sum:sparse+tt", "DenseGaussianDRM", "DenseGaussianDRM", d))
scenario("C13", "sum:dense+tucker with TensorTrainDRM order 3", d=3, fns=FN13)(_c13("sum:dense+tucker", "TensorTrainDRM", "TensorTrainDRM", 3))


# ------------------------------------------------------------------ the public entry point
def fixed_drms(e, dn1, dn2, shape, lless=True, lname="l", rname="r"):
    """DRMs whose ranks are consistently ordered, with their ranks and matrices"""
    d = len(shape)
    l, r = ranks(e, lname, d), ranks(e, rname, d)
    for a, b in zip(l, r):
        e.assume(a < b if lless else a > b)
    L = drm(e, dn1, shape, l, False, e.seed("s1"))
    R = drm(e, dn2, shape, r, True, e.seed("s2"))
    return L, R, l, r


def stream(e, X, L, R, l, r):
    return e.sketch.stream_sketch(X, l, r, left_drm=L, right_drm=R)


def _c13s(kind, dn, d, lless):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(kind, "X", shape)
        L, R, l, r = fixed_drms(e, dn, dn, shape, lless)
        Y, Z = mats(e, L, shape), mats(e, R, shape)
        fr = e.frame(X, L, R)
        S = stream(e, X, L, R, l, r)
        is_sketch(e, S, D, Y, Z, shape, l, r)
        e.true("the DRMs are kept", S.left_drm is L and S.right_drm is R)
        e.frame_ok("sketching leaves tensor and DRMs unchanged", fr)
    return f


for k, dn in (("tt", "TensorTrainDRM"), ("dense", "DenseGaussianDRM"), ("sparse", "SparseGaussianDRM"), ("cp", "TensorTrainDRM"), ("sparse", "SparseSignDRM")):
    for ll in (True, False):
        scenario("C13", f"stream_sketch of {k} with {dn} order 3, {'left' if ll else 'right'} ranks smaller", d=3, fns=FN13 + ["stream_sketch"])(_c13s(k, dn, 3, ll))


def one_given(e, dn, d, side, lless, shape, l, r):
    """one DRM is given; the other is created, a tensor-train DRM unless a type is named"""
    l2, r2 = (l, e.utils.process_tt_rank(r, shape, not lless)) if side == "left" else (e.utils.process_tt_rank(l, shape, lless), r)
    D = drm(e, dn, shape, l if side == "left" else r, side == "right", e.seed("s2"))
    return D, {f"{side}_drm": D}, l2, r2


def _c13one(dn, d, side, lless):
    def f(e):
        shape = e.shape(d)
        X, D = e.make("sparse" if DRMS[dn][0] == "sparse" else "dense", "X", shape)
        l, r = ranks(e, "l", d), ranks(e, "r", d)
        for a, b in zip(l, r):
            e.assume(a < b if lless else a > b)
        G, kw, pl, pr = one_given(e, dn, d, side, lless, shape, l, r)
        S, L, R = e.sketch.stream_sketch(X, l, r, seed=e.seed("s1"), return_drm=True, **kw)
        e.true("the given DRM is kept", (L if side == "left" else R) is G)
        e.isa("the other DRM", R if side == "left" else L, e.drm.TensorTrainDRM)
        e.true("sides", L.transpose is False and R.transpose is True)
        is_sketch(e, S, D, mats(e, L, shape), mats(e, R, shape), shape, pl, pr)
    return f


def _c13new(dn, d, given, lless):
    """the DRMs stream_sketch creates itself"""
    def f(e):
        shape = e.shape(d)
        X, D = e.make("sparse" if DRMS[dn][0] == "sparse" else "dense", "X", shape)
        l, r = ranks(e, "l", d), ranks(e, "r", d)
        for a, b in zip(l, r):
            e.assume(a < b if lless else a > b)
        T = getattr(e.drm, dn)
        kw = {"left": dict(left_drm_type=T), "right": dict(right_drm_type=T), "both": dict(left_drm_type=T, right_drm_type=T), "none": {}}[given]
        seed = e.seed("s1")
        S, L, R = e.sketch.stream_sketch(X, l, r, seed=seed, return_drm=True, **kw)
        e.isa("left DRM type", L, T)
        e.isa("right DRM type", R, T)
        e.true("sides", L.transpose is False and R.transpose is True)
        pl, pr = e.utils.process_tt_rank(l, shape, lless), e.utils.process_tt_rank(r, shape, not lless)
        is_sketch(e, S, D, mats(e, L, shape), mats(e, R, shape), shape, pl, pr)
    return f


for dn in DRMS:
    for g in ("left", "right", "both") + (("none",) if dn == "TensorTrainDRM" else ()):
        for ll in (True, False):
            scenario("C13", f"stream_sketch creating {dn} ({g} given, {'left' if ll else 'right'} smaller) order 2", d=2, fns=FN13 + ["stream_sketch"])(_c13new(dn, 2, g, ll))
    for g in ("left", "right"):
        scenario("C13", f"stream_sketch with one {dn} given on the {g} order 2", d=2, fns=FN13 + ["stream_sketch"])(_c13one(dn, 2, g, True))


# ------------------------------------------------------------------ C14
def _c14add(k1, k2, dn, d, lless=True):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(k1, "X", shape)
        Y_, E = e.make(k2, "Y", shape)
        L, R, l, r = fixed_drms(e, dn, dn, shape, lless)
        Y, Z = mats(e, L, shape), mats(e, R, shape)
        S = stream(e, X, L, R, l, r)
        fr = e.frame(S, X, Y_, L, R)
        S2 = S + Y_
        e.isa("a sketched tensor", S2, e.sketch.SketchedTensorTrain)
        is_sketch(e, S2, D + E, Y, Z, shape, l, r, "sketch of the sum")
        c = e.scalar("c")
        S3 = S * c
        is_sketch(e, S3, D * c, Y, Z, shape, l, r, "sketch of the multiple")
        S4 = (S * c) + Y_
        is_sketch(e, S4, D * c + E, Y, Z, shape, l, r, "multiple, then update")
        S5 = S2 + X
        is_sketch(e, S5, D + E + D, Y, Z, shape, l, r, "two updates")
        e.true("the DRMs are kept", S2.left_drm is L and S2.right_drm is R and S3.left_drm is L and S3.right_drm is R)
        e.frame_ok("updating leaves sketch, tensors and DRMs unchanged", fr)
    return f


FN14 = ["SketchedTensorTrain.__add__", "SketchedTensorTrain.__mul__", "SketchContainer.__add__", "SketchContainer.__mul__"]
for k1, k2, dn in (("tt", "cp", "TensorTrainDRM"), ("sparse", "tt", "TensorTrainDRM"), ("dense", "sparse", "DenseGaussianDRM"), ("sparse", "sparse", "SparseGaussianDRM"),
                   ("sparse", "sparse", "SparseSignDRM"), ("tucker", "sum:tt+cp", "TensorTrainDRM")):
    for d in (2, 3):
        for ll in (True, False):
            scenario("C14", f"{k1} sketch updated with {k2}, {dn} order {d}, {'left' if ll else 'right'} ranks smaller", d=d, fns=FN14)(_c14add(k1, k2, dn, d, ll))


def container(e, name, shape, l, r):
    d = len(shape)
    ll, rr = (1,) + tuple(l), tuple(r) + (1,)
    P = [e.arr(f"{name}P{i}", (ll[i], shape[i], rr[i])) for i in range(d)]
    O = [e.arr(f"{name}O{i}", (l[i], r[i])) for i in range(d - 1)]
    return e.container.SketchContainer(list(P), list(O)), P, O


def is_container(e, what, S, P, O, shape, l, r):
    e.eqs(f"{what}: Psi", S.Psi_cores, P)
    e.eqs(f"{what}: Omega", S.Omega_mats, O)
    e.shape_is(f"{what}: shape", S.shape, shape)
    e.shape_is(f"{what}: left rank", S.left_rank, l)
    e.shape_is(f"{what}: right rank", S.right_rank, r)


def _c14c(d):
    def f(e):
        shape = e.shape(d)
        l, r = ranks(e, "l", d), ranks(e, "r", d)
        S, P, O = container(e, "S", shape, l, r)
        W, Q, N = container(e, "W", shape, l, r)
        c = e.nonzero("c")
        fr = e.frame(S, W)
        is_container(e, "container", S, P, O, shape, l, r)
        is_container(e, "S + W", S + W, [a + b for a, b in zip(P, Q)], [a + b for a, b in zip(O, N)], shape, l, r)
        is_container(e, "S - W", S - W, [a - b for a, b in zip(P, Q)], [a - b for a, b in zip(O, N)], shape, l, r)
        is_container(e, "S * c", S * c, [a * c for a in P], [a * c for a in O], shape, l, r)
        is_container(e, "-S", -S, [a * -1 for a in P], [a * -1 for a in O], shape, l, r)
        is_container(e, "S / c", S / c, [a * (1 / c) for a in P], [a * (1 / c) for a in O], shape, l, r)
        np = e.np
        is_container(e, "S.T", S.T, [np.transpose(a, (2, 1, 0)) for a in P[::-1]], [np.transpose(a, (1, 0)) for a in O[::-1]], shape[::-1], r[::-1], l[::-1])
        is_container(e, "S.T.T", S.T.T, P, O, shape, l, r)
        Z = e.container.SketchContainer.zero(shape, l, r)
        is_container(e, "zero", Z, [a * 0 for a in P], [a * 0 for a in O], shape, l, r)
        e.frame_ok("container arithmetic leaves the operands unchanged", fr)
    return f


for d in (2, 3, 4):
    scenario("C14", f"container arithmetic order {d}", d=d, fns=["SketchContainer.*"])(_c14c(d))


# ------------------------------------------------------------------ C02 and C14: transposed sketches
def _c02s(kind, dn, d, lless):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(kind, "X", shape)
        V, F = e.make(kind, "V", shape)
        L, R, l, r = fixed_drms(e, dn, dn, shape, lless)
        Y, Z = mats(e, L, shape), mats(e, R, shape)
        S = stream(e, X, L, R, l, r)
        fr = e.frame(S)
        T = S.T
        e.shape_is("shape", T.shape, shape[::-1])
        e.shape_is("left rank of the transpose", T.left_rank, r[::-1])
        e.shape_is("right rank of the transpose", T.right_rank, l[::-1])
        perm = lambda A: e.np.transpose(A, tuple(range(len(A.shape) - 1))[::-1] + (len(A.shape) - 1,))
        YT, ZT = [perm(A) for A in Z[::-1]], [perm(A) for A in Y[::-1]]
        is_sketch(e, T, e.rev(D), YT, ZT, shape[::-1], r[::-1], l[::-1], "transposed sketch")
        U = T + V.T
        is_sketch(e, U, e.rev(D + F), YT, ZT, shape[::-1], r[::-1], l[::-1], "updated transposed sketch")
        is_sketch(e, T.T, D, Y, Z, shape, l, r, "transposed twice")
        W = T.T + V
        is_sketch(e, W, D + F, Y, Z, shape, l, r, "transposed twice, then updated")
        e.frame_ok("transposing leaves the sketch unchanged", fr)
    return f


for k, dn in (("tt", "TensorTrainDRM"), ("dense", "DenseGaussianDRM"), ("sparse", "SparseGaussianDRM"), ("sparse", "SparseSignDRM")):
    for d in (2, 3):
        for ll in (True, False):
            scenario("C02", f"transposed sketch of {k} with {dn} order {d}, {'left' if ll else 'right'} ranks smaller", d=d,
                     fns=["SketchedTensorTrain.T", "SketchContainer.T", "DRM.T"])(_c02s(k, dn, d, ll))


# ------------------------------------------------------------------ C15
def reconstruction(e, P, O, direction):
    """the generalized Nystrom cores"""
    np = e.np
    if direction == "right":
        return [np.einsum("aib,bc->aic", p, np.linalg.pinv(o)) for p, o in zip(P[:-1], O)] + [P[-1]]
    return [P[0]] + [np.einsum("ab,bic->aic", np.linalg.pinv(o), p) for p, o in zip(P[1:], O)]


def _c15(d, direction):
    def f(e):
        shape = e.shape(d)
        l, r = ranks(e, "l", d), ranks(e, "r", d)
        S, P, O = container(e, "S", shape, l, r)
        for o in O:
            e.well(o)
        fr = e.frame(S)
        C = e.sketch.assemble_sketched_tt(S, direction)
        e.eqs(f"cores, direction {direction}", C, reconstruction(e, P, O, direction))
        e.frame_ok("reconstruction leaves the sketch unchanged", fr)
    return f


FN15 = ["assemble_sketched_tt", "right_mul_pinv", "left_mul_pinv"]
for d in (2, 3, 4):
    for di in ("left", "right"):
        scenario("C15", f"assemble {di} order {d}", d=d, fns=FN15)(_c15(d, di))


def _c15a(d, lless):
    def f(e):
        shape = e.shape(d)
        L, R, l, r = fixed_drms(e, "TensorTrainDRM", "TensorTrainDRM", shape, lless)
        W, P, O = container(e, "S", shape, l, r)
        for o in O:
            e.well(o)
        S = e.sketch.SketchedTensorTrain(W, L, R)
        fr = e.frame(S)
        want = reconstruction(e, P, O, "right" if lless else "left")
        e.eqs("automatic direction", S.C_cores(), want)
        e.eqs("direction right", S.C_cores("right"), reconstruction(e, P, O, "right"))
        e.eqs("direction left", S.C_cores("left"), reconstruction(e, P, O, "left"))
        T = S.to_tt()
        e.isa("a tensor train", T, e.tensor.TensorTrain)
        e.eqs("cores of to_tt", T.cores, want)
        e.shape_is("ranks are the smaller ones", T.rank, l if lless else r)
        e.shape_is("shape", T.shape, shape)
        D = e.dense_tt(want)
        e.eq("to_numpy", S.to_numpy(), D)
        X, E = e.tt("X", shape)
        e.seq("dot of a sketched tensor", S.dot(X), e.inner(D, E))
        e.seq("dot with a sketched tensor", X.dot(S), e.inner(D, E))
        e.frame_ok("reconstruction leaves the sketch unchanged", fr)
    return f


for d in (2, 3):
    for ll in (True, False):
        scenario("C15", f"to_tt order {d}, {'left' if ll else 'right'} ranks smaller", d=d, fns=FN15 + ["SketchedTensorTrain.C_cores", "SketchedTensorTrain.to_tt"])(_c15a(d, ll))


def _c15mixed(e):
    """automatic direction when the ranks are not consistently ordered: right"""
    shape = e.shape(3)
    l, r = ranks(e, "l", 3), ranks(e, "r", 3)
    e.assume(l[0] <= r[0])
    S, P, O = container(e, "S", shape, l, r)
    for o in O:
        e.well(o)
    e.eqs("automatic direction with mixed ranks", e.sketch.assemble_sketched_tt(S), reconstruction(e, P, O, "right"))


scenario("C15", "automatic direction, some left rank not larger", d=3, fns=FN15)(_c15mixed)


def _c15exact(d, direction):
    """Omega_k = P_k Q_k and Psi_k = P_{k-1} C_k Q_k, with P of full column rank and Q of full row rank (what C13 gives for a tensor
    train with cores C whenever the sketch ranks are at least its ranks, almost surely): the reconstruction is the tensor"""
    def f(e):
        shape = e.shape(d)
        k = ranks(e, "k", d)
        l, r = ranks(e, "l", d), ranks(e, "r", d)
        C = e.tt_cores("X", shape, k)
        P, Q, O = zip(*[e.fullrank(f"F{i}", l[i], k[i], r[i]) for i in range(d - 1)])
        np = e.np
        Psi = []
        for i in range(d):
            A = C[i]
            if i > 0:
                A = np.einsum("ab,bic->aic", P[i - 1], A)
            if i < d - 1:
                A = np.einsum("aib,bc->aic", A, Q[i])
            Psi.append(A)
        S = e.container.SketchContainer(Psi, list(O))
        T = e.tensor.TensorTrain(e.sketch.assemble_sketched_tt(S, direction))
        e.eq("low-rank tensors are recovered", e.dense_tt(T.cores), e.dense_tt(C))
    return f


for d in (2, 3, 4):
    for di in ("left", "right"):
        scenario("C15", f"exact recovery {di} order {d}", d=d, fns=FN15)(_c15exact(d, di))


# ------------------------------------------------------------------ C16
def is_projection(e, T, X, D, shape, rank):
    d = len(shape)
    np = e.np
    e.isa("a tensor train", T, e.tensor.TensorTrain)
    e.shape_is("shape", T.shape, shape)
    e.shape_is("ranks", T.rank, rank)
    for i, C in enumerate(T.cores[:-1]):
        e.left_orth(f"core {i} left-orthogonal", C)
    n, rr = LET[:d], LET[26:26 + d + 1]
    left = ",".join(rr[i] + n[i] + rr[i + 1] for i in range(d - 1))
    last = np.einsum(f"{n},{left}->{rr[0]}{rr[d - 1]}{n[-1]}", D, *T.cores[:-1])
    want = np.transpose(last, (1, 2, 0)) if d > 1 else last
    e.eq("the last core is the tensor contracted with the left cores", T.cores[-1], want)
    Z = e.dense_tt(T.cores)
    e.eq("the dense array of the result", T.to_numpy(), Z)
    e.seq("the error is orthogonal to the result", e.inner(Z, D), e.inner(Z, Z))


def admissible(e, rank, shape):
    rr = (1,) + tuple(rank) + (1,)
    for i, n in enumerate(shape):
        e.assume(rr[i + 1] <= rr[i] * n)
        e.assume(rr[i] <= rr[i + 1] * n)


def _c16h(kind, dn, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(kind, "X", shape)
        r = ranks(e, "r", d)
        admissible(e, r, shape)
        R = drm(e, dn, shape, r, True, e.seed("s1"))
        fr = e.frame(X, R)
        T, R2 = e.sketch.hmt_sketch(X, r, drm=R, return_drm=True)
        e.true("the DRM is kept", R2 is R)
        is_projection(e, T, X, D, shape, r)
        e.frame_ok("sketching leaves tensor and DRM unchanged", fr)
    return f


def _c16o(kind, dn, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(kind, "X", shape)
        L, R, l, r = fixed_drms(e, dn, dn, shape, True)
        admissible(e, l, shape)
        fr = e.frame(X, L, R)
        T, L2, R2 = e.sketch.orthogonal_sketch(X, l, r, left_drm=L, right_drm=R, return_drm=True)
        e.true("the DRMs are kept", L2 is L and R2 is R)
        is_projection(e, T, X, D, shape, l)
        e.frame_ok("sketching leaves tensor and DRMs unchanged", fr)
    return f


FN16 = ["general_sketch", "orth_step", "OrthogTTDRM.*", "hmt_sketch", "orthogonal_sketch"]
for dn, (ref, kinds) in DRMS.items():
    for k in kinds + (("sum:tt+cp",) if dn == "TensorTrainDRM" else ()):
        for d in (2, 3):
            scenario("C16", f"hmt_sketch of {k} with {dn} order {d}", d=d, fns=FN16)(_c16h(k, dn, d))
            scenario("C16", f"orthogonal_sketch of {k} with {dn} order {d}", d=d, fns=FN16)(_c16o(k, dn, d))


def _c16new(dn, d, given):
    """ranks are trimmed and DRMs created by the sketch itself"""
    def f(e):
        shape = e.shape(d)
        X, D = e.make("sparse" if DRMS[dn][0] == "sparse" else "dense", "X", shape)
        l, r = ranks(e, "l", d), ranks(e, "r", d)
        for a, b in zip(l, r):
            e.assume(a < b)
        T = getattr(e.drm, dn)
        seed = e.seed("s1")
        trimmed = e.utils.process_tt_rank(r, shape, True)
        H, R = e.sketch.hmt_sketch(X, r, seed=seed, drm_type=T, return_drm=True)
        e.isa("DRM type", R, T)
        is_projection(e, H, X, D, shape, trimmed)
        kw = {"left": dict(left_drm_type=T), "right": dict(right_drm_type=T)}[given]
        trimmed = e.utils.process_tt_rank(l, shape, True)
        O, L, R = e.sketch.orthogonal_sketch(X, l, r, seed=seed, return_drm=True, **kw)
        e.isa("left DRM type", L, T)
        e.isa("right DRM type", R, T)
        is_projection(e, O, X, D, shape, trimmed)
    return f


def _c16one(dn, d, side):
    def f(e):
        shape = e.shape(d)
        X, D = e.make("sparse" if DRMS[dn][0] == "sparse" else "dense", "X", shape)
        l, r = ranks(e, "l", d), ranks(e, "r", d)
        for a, b in zip(l, r):
            e.assume(a < b)
        if side == "left":
            admissible(e, l, shape)
        G, kw, pl, _ = one_given(e, dn, d, side, True, shape, l, r)
        O, L, R = e.sketch.orthogonal_sketch(X, l, r, seed=e.seed("s1"), return_drm=True, **kw)
        e.true("the given DRM is kept", (L if side == "left" else R) is G)
        e.isa("the other DRM", R if side == "left" else L, e.drm.TensorTrainDRM)
        is_projection(e, O, X, D, shape, pl)
    return f


for dn in DRMS:
    for g in ("left", "right"):
        scenario("C16", f"orthogonal_sketch with one {dn} given on the {g} order 2", d=2, fns=FN16)(_c16one(dn, 2, g))
        scenario("C16", f"sketches creating {dn} ({g} type given) order 2", d=2, fns=FN16)(_c16new(dn, 2, g))


# ------------------------------------------------------------------ C17
def cuts(e, name, top, n):
    """a partition of the rank ranges 0..top into n (possibly empty) slices"""
    d1 = len(top)
    out = [(0,) * d1]
    for j in range(1, n):
        m = tuple(e.size(f"{name}{j}_{i}", lo=0) for i in range(d1))
        for a, b, c in zip(out[-1], m, top):
            e.assume(a <= b)
            e.assume(b <= c)
        out.append(m)
    return out + [tuple(top)]


def _c17(kind, dn, d, nl, nr):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(kind, "X", shape)
        l, r = ranks(e, "l", d), ranks(e, "r", d)
        L = drm(e, dn, shape, l, False, e.seed("s1"))
        R = drm(e, dn, shape, r, True, e.seed("s2"))
        Y, Z = mats(e, L, shape), mats(e, R, shape)
        ls, rs = cuts(e, "ml", l, nl), cuts(e, "mr", r, nr)
        fr = e.frame(X, L, R)
        S = e.sketch.blocked_stream_sketch(X, L, R, ls, rs)
        is_sketch(e, S, D, Y, Z, shape, l, r, "blocked sketch")
        e.frame_ok("sketching leaves tensor and DRMs unchanged", fr)
    return f


FN17 = ["CanSlice.slice", "_slice_kwargs", "blocked_stream_sketch", "_blocked_stream_sketch_components", "_assemble_blocked_stream_sketches", "SketchContainer.zero"]
for dn, (ref, kinds) in DRMS.items():
    for k in kinds:
        scenario("C17", f"blocked sketch of {k} with {dn} order 2, 2 x 2 slices", d=2, fns=FN17)(_c17(k, dn, 2, 2, 2))
    scenario("C17", f"blocked sketch of {kinds[0]} with {dn} order 3, 2 x 1 slices", d=3, fns=FN17)(_c17(kinds[0], dn, 3, 2, 1))
    scenario("C17", f"blocked sketch of {kinds[0]} with {dn} order 3, 1 x 2 slices", d=3, fns=FN17)(_c17(kinds[0], dn, 3, 1, 2))


def _c17slice(dn, d):
    """a slice of a DRM has the corresponding columns of its matrices"""
    def f(e):
        shape = e.shape(d)
        l = ranks(e, "l", d)
        for tr in (False, True):
            L = drm(e, dn, shape, l, tr, e.seed("s1"))
            a = tuple(e.size(f"a{i}", lo=0) for i in range(d - 1))
            b = tuple(e.size(f"b{i}", lo=0) for i in range(d - 1))
            for x, y, z in zip(a, b, l):
                e.assume(x <= y)
                e.assume(y <= z)
            fr = e.frame(L)
            Q = L.slice(a, b)
            e.isa("type", Q, type(L))
            Y, W = mats(e, L, shape), mats(e, Q, shape)
            e.eqs("columns of the slice", W, [y[(slice(None),) * (len(y.shape) - 1) + (slice(i, j),)] for y, i, j in zip(Y, a, b)])
            e.frame_ok("slicing leaves the DRM unchanged", fr)
    return f


for dn in DRMS:
    for d in (2, 3):
        scenario("C17", f"{dn}.slice order {d}", d=d, fns=["CanSlice.slice"])(_c17slice(dn, d))


def _c17inc(dn, d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(DRMS[dn][1][0], "X", shape)
        L, R, l, r = fixed_drms(e, dn, dn, shape, True)
        l2, r2 = ranks(e, "L", d), ranks(e, "R", d)
        for a, b in list(zip(l, l2)) + list(zip(r, r2)):
            e.assume(a <= b)
        S = stream(e, X, L, R, l, r)
        fr = e.frame(S, X, L, R)
        T = S.increase_rank(X, l2, r2)
        Y, Z = mats(e, T.left_drm, shape), mats(e, T.right_drm, shape)
        is_sketch(e, T, D, Y, Z, shape, l2, r2, "sketch of larger rank")
        Y1, Z1 = mats(e, L, shape), mats(e, R, shape)
        for y, y1, z, z1, a, b in zip(Y, Y1, Z, Z1, l, r):
            e.eq("old columns of the left DRM", y[(slice(None),) * (len(y.shape) - 1) + (slice(0, a),)], y1)
            e.eq("old columns of the right DRM", z[(slice(None),) * (len(z.shape) - 1) + (slice(0, b),)], z1)
        e.frame_ok("increasing the rank leaves everything unchanged", fr)
    return f


for dn in ("SparseGaussianDRM", "DenseGaussianDRM"):
    for d in (2, 3):
        scenario("C17", f"increase_rank with {dn} order {d}", d=d, fns=["SketchedTensorTrain.increase_rank", "CanIncreaseRank.increase_rank"] + FN17)(_c17inc(dn, d))


# ------------------------------------------------------------------ C26
def mk_drm_any(e, dn, shape, d, tr, name="q", seed="s1"):
    q = ranks(e, name, d)
    return drm(e, dn, shape, q, tr, e.seed(seed)), q


def _c26shape(dn, kind, d, d2):
    """a DRM made for another shape (some mode size differs, or the order differs)"""
    def f(e):
        shape, other = e.shape(d), e.shape(d2, "m")
        if d == d2:
            e.differ(shape, other)
        X, D = e.make(kind, "X", shape)
        l, r = ranks(e, "l", d), ranks(e, "r", d)
        for a, b in zip(l, r):
            e.assume(a < b)
        G = drm(e, dn, shape, l, False, e.seed("s1"))
        H = drm(e, dn, shape, r, True, e.seed("s2"))
        L, q = mk_drm_any(e, dn, other, d2, False)
        R, q2 = mk_drm_any(e, dn, other, d2, True, "p")
        M = e.dispatch.SketchMethod
        for nm, a, b in (("left", L, H), ("right", G, R), ("both", L, R)):
            e.raises(f"streaming, {nm} DRM of another shape", ValueError, lambda: e.dispatch.general_sketch(X, a, b, M.streaming))
            e.raises(f"orthogonal, {nm} DRM of another shape", ValueError, lambda: e.dispatch.general_sketch(X, a, b, M.orthogonal))
        e.raises("hmt, DRM of another shape", ValueError, lambda: e.dispatch.general_sketch(X, None, R, M.hmt))
        e.raises("hmt_sketch, DRM of another shape", ValueError, lambda: e.sketch.hmt_sketch(X, q2, drm=R))
        e.raises("stream_sketch, left DRM of another shape", ValueError, lambda: e.sketch.stream_sketch(X, q, r, left_drm=L, right_drm=H))
        e.raises("stream_sketch, right DRM of another shape", ValueError, lambda: e.sketch.stream_sketch(X, l, q2, left_drm=G, right_drm=R))
        e.raises("orthogonal_sketch, right DRM of another shape", ValueError, lambda: e.sketch.orthogonal_sketch(X, l, q2, left_drm=G, right_drm=R))
        if d == d2:
            S = e.sketch.stream_sketch(X, l, r, left_drm=G, right_drm=H)
            V, _ = e.make(kind, "V", other)
            e.raises("updating a sketch with a tensor of another shape", ValueError, lambda: S + V)
    return f


FN26 = ["handle_transpose", "stream_sketch", "orthogonal_sketch", "hmt_sketch"]
for dn, (ref, kinds) in DRMS.items():
    for k in kinds:
        scenario("C26", f"{dn} of another shape for {k} order 2", d=2, fns=FN26)(_c26shape(dn, k, 2, 2))
    scenario("C26", f"{dn} of another shape for {kinds[0]} order 3", d=3, fns=FN26)(_c26shape(dn, kinds[0], 3, 3))
    scenario("C26", f"{dn} of another order for {kinds[0]}", d=2, fns=FN26)(_c26shape(dn, kinds[0], 2, 3))
    scenario("C26", f"{dn} of lower order for {kinds[0]}", d=3, fns=FN26)(_c26shape(dn, kinds[0], 3, 2))


def _c26ranks(d):
    """rank tuples that are not consistently ordered"""
    def f(e):
        shape = e.shape(d)
        X, D = e.make("dense", "X", shape)
        l, r = ranks(e, "l", d), ranks(e, "r", d)
        less, more = e.all([a < b for a, b in zip(l, r)]), e.all([a > b for a, b in zip(l, r)])
        if less:
            S = e.sketch.stream_sketch(X, l, r)
            e.shape_is("consistent ranks are accepted", S.shape, shape)
            if d == 2:
                e.sketch.orthogonal_sketch(X, l, r)
        elif more:
            S = e.sketch.stream_sketch(X, l, r)
            e.shape_is("consistent ranks are accepted", S.shape, shape)
            e.raises("orthogonal sketch with larger left ranks", ValueError, lambda: e.sketch.orthogonal_sketch(X, l, r))
        else:
            e.raises("streaming sketch with inconsistent ranks", ValueError, lambda: e.sketch.stream_sketch(X, l, r))
            e.raises("orthogonal sketch with inconsistent ranks", ValueError, lambda: e.sketch.orthogonal_sketch(X, l, r))
    return f


scenario("C26", "order of left and right ranks, tensor order 2", d=2, fns=FN26)(_c26ranks(2))


def _c26inc(d):
    def f(e):
        shape = e.shape(d)
        X, D = e.make("dense", "X", shape)
        l, r = ranks(e, "l", d), ranks(e, "r", d)
        less, more = e.all([a < b for a, b in zip(l, r)]), e.all([a > b for a, b in zip(l, r)])
        if not less:
            e.raises("orthogonal sketch with inconsistent ranks", ValueError, lambda: e.sketch.orthogonal_sketch(X, l, r))
            if not more:
                e.raises("streaming sketch with inconsistent ranks", ValueError, lambda: e.sketch.stream_sketch(X, l, r))
    return f


for d in (2, 3, 4):
    scenario("C26", f"inconsistent ranks order {d}", d=d, fns=FN26)(_c26inc(d))


def _c26drmrank(dn, d):
    """DRMs whose ranks differ from the requested ones"""
    def f(e):
        shape = e.shape(d)
        X, D = e.make(DRMS[dn][1][0], "X", shape)
        l, r = ranks(e, "l", d), ranks(e, "r", d)
        for a, b in zip(l, r):
            e.assume(a < b)
        L, R = drm(e, dn, shape, l, False, e.seed("s1")), drm(e, dn, shape, r, True, e.seed("s2"))
        l2, r2 = ranks(e, "L", d), ranks(e, "R", d)
        e.differ(l, l2)
        e.differ(r, r2)
        for o, nm in ((True, "smaller"), (False, "larger")):
            e.raises("stream_sketch with a left DRM of other ranks", ValueError, lambda: e.sketch.stream_sketch(X, l2, r, left_drm=L, right_drm=R))
            e.raises("stream_sketch with a right DRM of other ranks", ValueError, lambda: e.sketch.stream_sketch(X, l, r2, left_drm=L, right_drm=R))
            e.raises("orthogonal_sketch with a left DRM of other ranks", ValueError, lambda: e.sketch.orthogonal_sketch(X, l2, r, left_drm=L, right_drm=R))
            e.raises("orthogonal_sketch with a right DRM of other ranks", ValueError, lambda: e.sketch.orthogonal_sketch(X, l, r2, left_drm=L, right_drm=R))
        e.raises("hmt_sketch with a DRM of other ranks", ValueError, lambda: e.sketch.hmt_sketch(X, r2, drm=R))
    return f


for dn in DRMS:
    for d in (2, 3):
        scenario("C26", f"{dn} of other ranks order {d}", d=d, fns=FN26)(_c26drmrank(dn, d))


def _c26numbers(dn, d):
    """ranks given as numbers or lists, with DRMs of these ranks"""
    def f(e):
        shape = e.shape(d)
        X, D = e.make(DRMS[dn][1][0], "X", shape)
        a, b = e.size("l1"), e.size("r1")
        e.assume(a < b)
        l, r = (a,) * (d - 1), (b,) * (d - 1)
        L, R = drm(e, dn, shape, l, False, e.seed("s1")), drm(e, dn, shape, r, True, e.seed("s2"))
        S = e.sketch.stream_sketch(X, l, r, left_drm=L, right_drm=R)
        for nm, l2, r2 in (("numbers", a, b), ("lists", list(l), list(r)), ("number and tuple", a, r)):
            T = e.sketch.stream_sketch(X, l2, r2, left_drm=L, right_drm=R)
            e.shape_is(f"left rank, {nm}", T.left_rank, l)
            e.shape_is(f"right rank, {nm}", T.right_rank, r)
            for k in range(d - 1):
                e.eq(f"Omega {k}, {nm}", T.Omega_mats[k], S.Omega_mats[k])
            for k in range(d):
                e.eq(f"Psi {k}, {nm}", T.Psi_cores[k], S.Psi_cores[k])
    return f


for dn in DRMS:
    for d in (2, 3):
        scenario("C26", f"{dn} with ranks given as numbers order {d}", d=d, fns=FN26)(_c26numbers(dn, d))


def _c26misc(e):
    shape = e.shape(3)
    l, r = ranks(e, "l", 3), ranks(e, "r", 3)
    S, P, O = container(e, "S", shape, l, r)
    for w in ("up", "", "Left", "RIGHT", None, "automatic"):
        e.raises(f"direction {w!r}", ValueError, lambda: e.sketch.assemble_sketched_tt(S, direction=w))


scenario("C26", "unknown direction", d=3, fns=["assemble_sketched_tt"])(_c26misc)


def _c26inc_rank(dn1, dn2):
    def f(e):
        shape = e.shape(2)
        X, D = e.make("sparse", "X", shape)
        L, R, l, r = fixed_drms(e, dn1, dn2, shape, True)
        S = stream(e, X, L, R, l, r)
        l2, r2 = ranks(e, "L", 2), ranks(e, "R", 2)
        ok = {"DenseGaussianDRM", "SparseGaussianDRM"}
        if dn1 in ok and dn2 in ok:
            for a, b in list(zip(l, l2)) + list(zip(r, r2)):
                e.assume(a <= b)
            T = S.increase_rank(X, l2, r2)
            e.shape_is("enlarged left rank", T.left_rank, l2)
        else:
            e.raises("increase_rank with a DRM that cannot be enlarged", ValueError, lambda: S.increase_rank(X, l2, r2))
    return f


for a in DRMS:
    for b in DRMS:
        scenario("C26", f"increase_rank with {a} and {b}", d=2, fns=["SketchedTensorTrain.increase_rank"])(_c26inc_rank(a, b))


# ------------------------------------------------------------------ C18, C19: the DRMs over the lazily generated matrices
def _lazydrm(dn, d, tr):
    def f(e):
        shape = e.shape(d)
        X, _ = e.make("sparse", "X", shape)
        r = ranks(e, "r", d)
        kw = {}
        if dn == "SparseSignDRM":
            kw = dict(num_non_zero_per_row=tuple(e.size(f"nz{i}") for i in range(1, d)))
        D = drm(e, dn, shape, r, tr, e.seed("s1"), **kw)
        fr = e.frame(X, D)
        Y = mats(e, D, shape)
        Ms = list(D.sketch_sparse(X))
        e.ieq("number of matrices", len(Ms), d - 1)
        for M, r0, n0 in zip(Ms, r, kw.get("num_non_zero_per_row", ())):
            e.sign_requested("rank and number of signs requested for the bond", M, r0, n0)
        for mu, M in enumerate(Ms):
            rows = X.indices[mu + 1:] if tr else X.indices[:mu + 1]
            e.eq("the column of a nonzero holds the entries of its multi-index", M, Y[mu][tuple(rows)].T)
        a, b = tuple(e.size(f"a{i}", lo=0) for i in range(1, d)), tuple(e.size(f"b{i}", lo=0) for i in range(1, d))
        for x, y, z in zip(a, b, r):
            e.assume(x <= y)
            e.assume(y <= z)
        for M, S, x, y in zip(Ms, D.slice(a, b).sketch_sparse(X), a, b):
            e.eq("a slice has the corresponding rows", S, M[x:y])
        if dn == "SparseGaussianDRM":
            q = tuple(x + y for x, y in zip(r, ranks(e, "q", d)))
            for M, S, x in zip(Ms, D.increase_rank(q).sketch_sparse(X), r):
                e.eq("increasing the rank keeps the old rows", S[:x], M)
        e.frame_ok("sketching leaves tensor and DRM unchanged", fr)
    return f


for p, dn in (("C18", "SparseGaussianDRM"), ("C19", "SparseSignDRM")):
    for d in (2, 3, 4):
        for tr in (False, True):
            scenario(p, f"{dn} {'right' if tr else 'left'} order {d}", d=d, fns=[dn + ".sketch_sparse", "handle_transpose", "CanSlice.slice"],
                     tier="quick" if d < 4 else "thorough")(_lazydrm(dn, d, tr))
