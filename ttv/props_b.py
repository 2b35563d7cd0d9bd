"""Contracts of C08-C12, C20, C24, C25 (rounding, decompositions, utilities, seeds, constructors, sizes)."""
from .scen import scenario
from .env import LET


# ------------------------------------------------------------------ C08
def sweep(e, cores, eps, max_rank):
    """the singular values met by a truncating right-to-left sweep over left-orthogonal cores: (ranks, sum of the squares of the
    discarded ones)"""
    np = e.np
    d = len(cores)
    C, tail, rk = cores[-1], 0, []
    for mu in range(d - 1, 0, -1):
        Cm = C.reshape(C.shape[0], C.shape[1] * C.shape[2])
        U, S, V = np.linalg.svd(Cm, full_matrices=False)
        r = e.max(1, e.min(e.count_above(S, eps), max_rank[mu - 1]))
        rk.append(r)
        tail = tail + (np.sum(S * S) - np.sum(S[:r] * S[:r]))
        C = np.einsum("aib,bk,k->aik", cores[mu - 1], U[:, :r], S[:r])
    return tuple(rk[::-1]), tail


def _c08(d, with_eps, with_rank, orth):
    def f(e):
        shape = e.shape(d)
        X, D = e.tt("X", shape)
        O = X.orthogonalize()
        eps = e.threshold("eps") if with_eps else None
        mr = tuple(e.size(f"m{i}") for i in range(1, d)) if with_rank else None
        W = O if orth else X
        fr = e.frame(W)
        Y = W.round(eps, mr, orthogonalized=True) if orth else W.round(eps, mr)
        lim = e.utils.process_tt_rank(O.rank if mr is None else mr, shape, True)
        rk, tail = sweep(e, O.cores, 0 if eps is None else eps, lim)
        e.isa("a tensor train", Y, e.tensor.TensorTrain)
        e.shape_is("shape", Y.shape, shape)
        e.shape_is("rank: the singular values above the threshold, up to the maximum rank, at least one", Y.rank, rk)
        for i in range(d - 1):
            e.true(f"rank {i} at most the maximum rank", Y.rank[i] <= lim[i])
        for i, C in enumerate(Y.cores[1:]):
            e.right_orth(f"core {i + 1} right-orthogonal", C)
        DO, DY = e.dense_tt(O.cores), e.dense_tt(Y.cores)
        err = DO - DY
        e.seq("squared error is the sum of the squared discarded singular values", e.inner(err, err), tail, scale=e.sq(DO))
        e.seq("the error is orthogonal to the result", e.inner(DO, DY), e.inner(DY, DY), scale=e.sq(DO))
        if orth:
            Z = X.round(eps, mr)
            e.shape_is("ranks without orthogonalized=True", Z.rank, rk)
            e.eq("same tensor with and without re-orthogonalization", DY, e.dense_tt(Z.cores))
        e.frame_ok("rounding leaves the tensor train unchanged", fr)
    return f


FN8 = ["TensorTrain.round", "TensorTrain.orthogonalize", "process_tt_rank"]
for d in (1, 2, 3, 4):
    for we in (False, True):
        for wr in (False, True):
            for o in (False, True):
                scenario("C08", tier="quick" if d < 4 else "thorough", name=f"round{' eps' if we else ''}{' max_rank' if wr else ''}{' orthogonalized' if o else ''} order {d}", d=d, fns=FN8)(_c08(d, we, wr, o))


# ------------------------------------------------------------------ C09
def compressed(e, D, cores, mu):
    """the unfolding at bond mu contracted with the cores before mode mu: (rank * mode size) x (modes after mu)"""
    d = len(D.shape)
    n, r = LET[:d], LET[26:26 + d + 1]
    sub = ",".join(r[i] + n[i] + r[i + 1] for i in range(mu))
    A = e.np.einsum(f"{n},{sub}->{r[0]}{r[mu]}{n[mu:]}", D, *cores[:mu]) if mu else D.reshape((1, 1) + tuple(D.shape))
    rest = 1
    for i in range(mu + 1, d):
        rest = rest * D.shape[i]
    return A.reshape(A.shape[1] * D.shape[mu], rest)


def _c09(kind, d, with_rank):
    def f(e):
        shape = e.shape(d)
        X, D = e.make(kind, "X", shape)
        rk = tuple(e.size(f"m{i}") for i in range(1, d)) if with_rank else None
        fr = e.frame(X)
        Y = e.mod("tt_sketch.tt_svd").tt_svd(X, rk)
        e.isa("a tensor train", Y, e.tensor.TensorTrain)
        e.shape_is("shape", Y.shape, shape)
        np = e.np
        if with_rank:
            for i in range(d - 1):
                e.true(f"rank {i} at most the requested one", Y.rank[i] <= rk[i])
            lim = e.utils.process_tt_rank(rk, shape, True)
        for i, C in enumerate(Y.cores[:-1]):
            e.left_orth(f"core {i} left-orthogonal", C)
        tail = 0
        for mu in range(d - 1):
            U, S, V = np.linalg.svd(compressed(e, D, Y.cores, mu), full_matrices=False)
            if with_rank:
                e.ieq(f"rank {mu}: the trimmed requested one, up to the number of singular values", Y.rank[mu], e.min(lim[mu], S.shape[0]))
                r = Y.rank[mu]
                tail = tail + (np.sum(S * S) - np.sum(S[:r] * S[:r]))
            else:
                e.true(f"rank {mu} keeps all singular values", Y.rank[mu] >= S.shape[0])
        DY = e.dense_tt(Y.cores)
        err = D - DY
        if with_rank:
            e.seq("squared error is the sum of the squared discarded singular values", e.inner(err, err), tail, scale=e.sq(D))
            e.seq("the error is orthogonal to the result", e.inner(D, DY), e.inner(DY, DY), scale=e.sq(D))
        else:
            e.eq("without a rank the tensor is represented exactly", DY, D)
        e.frame_ok("the tensor is unchanged", fr)
    return f


FN9 = ["tt_svd", "matricize", "process_tt_rank"]
for k in ("dense", "tt", "cp", "tucker"):
    for d in (2, 3):
        for wr in (False, True):
            if d == 3 and k not in ("dense", "tt"):
                continue
            scenario("C09", f"tt_svd of {k}{' with rank' if wr else ''} order {d}", d=d, fns=FN9)(_c09(k, d, wr))
scenario("C09", "tt_svd of dense with rank order 4", d=4, fns=FN9, tier="thorough")(_c09("dense", 4, True))


def _c09same(kind, d):
    """the TT-SVD of a tensor is that of its dense array"""
    def f(e):
        shape = e.shape(d)
        X, D = e.make(kind, "X", shape)
        rk = tuple(e.size(f"m{i}") for i in range(1, d))
        fr = e.frame(X)
        tt_svd = e.mod("tt_sketch.tt_svd").tt_svd
        Y, Z = tt_svd(X, rk), tt_svd(e.tensor.DenseTensor(X.to_numpy()), rk)
        e.shape_is("shape", Y.shape, shape)
        e.eqs("cores", Y.cores, Z.cores)
        e.frame_ok("the tensor is unchanged", fr)
    return f


for k in ("sparse", "sum:tt+cp", "sum:sparse+dense"):
    for d in (2, 3):
        scenario("C09", f"tt_svd of {k} is that of its dense array, order {d}", d=d, fns=FN9)(_c09same(k, d))


# ------------------------------------------------------------------ C10
def unfold(e, D, mu):
    """the unfolding between modes mu-1 and mu"""
    a = b = 1
    for i, n in enumerate(D.shape):
        if i < mu:
            a = a * n
        else:
            b = b * n
    return D.reshape(a, b)


def _c10(d):
    """M = P diag(S) W with P'P = I and WW' = I for the unfolding M and the reported S: they are its singular values, up to zeros"""
    def f(e):
        shape = e.shape(d)
        X, D = e.tt("X", shape)
        fr = e.frame(X)
        R = X.svdvals()
        np = e.np
        O = X.orthogonalize()
        e.ieq("number of lists", len(R), d)
        C, W = O.cores[-1], np.eye(1)
        nd = 0                        # modes to the right of the current core
        for mu in range(d - 1, -1, -1):
            bond = max(mu, 1)
            Cm = C.reshape(C.shape[0], C.shape[1] * C.shape[2]) if mu > 0 else C.reshape(C.shape[0] * C.shape[1], C.shape[2])
            U, S, V = np.linalg.svd(Cm, full_matrices=False)
            e.svdvals_are(f"list {mu}", R[mu], S, unfold(e, D, bond) if d > 1 else D.reshape(shape[0], 1))
            n = LET[26:26 + d]
            if mu > 0:
                V3 = V.reshape(V.shape[0], C.shape[1], C.shape[2])
                W = np.einsum(f"aib,b{n[:nd]}->ai{n[:nd]}", V3, W) if nd else V3.reshape(V3.shape[0], V3.shape[1])
                nd += 1
                P = np.einsum(",".join(LET[i] + n[i] + LET[i + 1] for i in range(mu)) + "," + LET[mu] + "z->" + n[:mu] + "z", *O.cores[:mu], U)
            else:
                P, W = U, (np.einsum(f"ab,b{n[:nd]}->a{n[:nd]}", V, W) if nd else V)
            k = S.shape[0]
            m = ",".join([LET[:bond] + "z", "z", "z" + LET[bond:bond + nd]]) + "->" + LET[:bond + nd]
            if d > 1:
                e.eq(f"list {mu}: unfolding = P diag(S) W", np.einsum(m, P, S, W), D)
            else:
                e.eq("unfolding = P diag(S) W", np.einsum("iz,z,zj->ij", P, S, W), D.reshape(shape[0], 1))
            l = LET[:len(P.shape) - 1]
            e.eq(f"list {mu}: columns of P are orthonormal", np.einsum(f"{l}y,{l}z->yz", P, P), np.eye(k))
            l = LET[:len(W.shape) - 1]
            e.eq(f"list {mu}: rows of W are orthonormal", np.einsum(f"y{l},z{l}->yz", W, W), np.eye(k))
            if mu > 0:
                C = np.einsum("aib,bk,k->aik", O.cores[mu - 1], U, S)
        e.frame_ok("the tensor train is unchanged", fr)
    return f


for d in (1, 2, 3, 4):
    scenario("C10", f"svdvals order {d}", d=d, fns=["TensorTrain.svdvals", "TensorTrain.orthogonalize"], tier="quick" if d < 4 else "thorough")(_c10(d))


# ------------------------------------------------------------------ C11
def is_admissible(e, r, shape):
    rr = (1,) + tuple(r) + (1,)
    return e.all([c for i, n in enumerate(shape) for c in (rr[i + 1] <= rr[i] * n, rr[i] <= rr[i + 1] * n)])


def _c11(d, kind):
    def f(e):
        shape = e.shape(d)
        if kind == "int":
            q = e.size("q")
            r = (q,) * (d - 1)
        else:
            r = tuple(e.size(f"q{i}") for i in range(1, d))
            q = list(r) if kind == "list" else r
        U = e.utils
        plain = U.process_tt_rank(q, shape, False)
        e.shape_is("untrimmed ranks", plain, r)
        t = U.process_tt_rank(q, shape, True)
        e.ieq("number of ranks", len(t), d - 1)
        for i in range(d - 1):
            e.true(f"rank {i} is not raised", t[i] <= r[i])
            e.true(f"rank {i} is positive", t[i] >= 1)
        e.true("admissible", is_admissible(e, t, shape))
        s = tuple(e.size(f"s{i}") for i in range(1, d))
        e.true("largest: every admissible tuple of smaller ranks is below",
               e.implies(e.all([is_admissible(e, s, shape)] + [a <= b for a, b in zip(s, r)]), e.all([a <= b for a, b in zip(s, t)])))
        if d < 4:
            e.shape_is("trimming again changes nothing", U.process_tt_rank(t, shape, True), t)
        for bad in (tuple(r) + (1,), tuple(r)[1:]):
            if len(bad) != d - 1:
                for trim in (False, True):
                    e.raises("wrong number of ranks", ValueError, lambda: U.process_tt_rank(bad, shape, trim))
    return f


for d in (1, 2, 3, 4):
    for k in ("int", "tuple", "list"):
        scenario("C11", f"process_tt_rank with {k} order {d}", d=d, fns=["process_tt_rank", "trim_ranks"], tier="quick" if d < 4 else "thorough")(_c11(d, k))


# ------------------------------------------------------------------ C12
def _merge(shape, modes):
    r = 1
    for m in modes:
        r = r * shape[m]
    return r


def _c12(d, form, mat_shape):
    """every choice and order of modes"""
    import itertools

    def f(e):
        shape = e.shape(d)
        A = e.arr("A", shape)
        np, U = e.np, e.utils
        n = LET[:d]
        fr = e.frame(A)
        if form == "int":
            todo = [((m,), m) for m in range(d)]
        else:
            todo = [(p, p if form == "tuple" else list(p)) for k in range(1, d + 1) for p in itertools.permutations(range(d), k)]
        for modes, arg in todo:
            M = U.matricize(A, arg, mat_shape=mat_shape) if mat_shape else U.matricize(A, arg)
            rest = [i for i in range(d) if i not in modes]
            left = (_merge(shape, modes),) if mat_shape else tuple(shape[m] for m in modes)
            e.shape_is(f"shape for modes {arg}", M.shape, left + (_merge(shape, rest),))
            # entry by entry: split the merged indices again
            full = M.reshape(tuple(shape[m] for m in modes) + tuple(shape[i] for i in rest))
            e.eq(f"entries for modes {arg}", full, np.einsum(n + "->" + "".join(n[m] for m in modes) + "".join(n[i] for i in rest), A))
            if form == "int":
                e.eq(f"undoing mode {arg}", U.dematricize(M, arg, shape), A)
                q = e.size("q")
                G = e.arr(f"G{arg}", (q, shape[arg]))
                B = U.dematricize(np.einsum("qa,ab->qb", G, M), arg, shape)
                e.shape_is(f"shape with mode {arg} changed", B.shape, shape[:arg] + (q,) + shape[arg + 1:])
                e.eq(f"undoing mode {arg} with changed size", B, np.einsum("z" + n[arg] + "," + n + "->" + n[:arg] + "z" + n[arg + 1:], G, A))
        e.frame_ok("the array is unchanged", fr)
    return f


for d in (1, 2, 3, 4):
    for form in ("int", "tuple", "list"):
        for ms in (False, True):
            scenario("C12", f"matricize by {form}{' to a matrix' if ms else ''} order {d}", d=d, fns=["matricize", "dematricize"] if form == "int" else ["matricize"],
                     tier="thorough" if d == 4 and form == "list" else "quick")(_c12(d, form, ms))


# ------------------------------------------------------------------ C24
def _c24tt(d, rk, trim, orthog, goal, seeded):
    def f(e):
        shape = e.shape(d)
        r = (e.size("q"),) * (d - 1) if rk == "int" else tuple(e.size(f"q{i}") for i in range(1, d))
        arg = e.size("q") if rk == "int" else r
        k = {}
        if seeded:
            k["seed"] = e.seed("s")
        if trim is not None:
            k["trim"] = trim
        if orthog:
            k["orthog"] = True
        if goal:
            k["norm_goal"] = goal
        TT = e.tensor.TensorTrain
        if orthog and trim is False:
            e.raises("orthogonal without trimming", ValueError, lambda: TT.random(shape, arg, **k))
            return
        X = TT.random(shape, arg, **k)
        tr = trim if trim is not None else orthog
        want = e.utils.process_tt_rank(r, shape, True) if tr else r
        e.isa("a tensor train", X, TT)
        e.shape_is("shape", X.shape, shape)
        e.shape_is("rank", X.rank, want)
        rr = (1,) + tuple(want) + (1,)
        for i, C in enumerate(X.cores):
            e.shape_is(f"shape of core {i}", C.shape, (rr[i], shape[i], rr[i + 1]))
            if orthog and i < d - 1:
                e.left_orth(f"core {i} left-orthogonal", C)
        if d > 1 or not orthog:
            e.raises("unknown normalization", ValueError, lambda: TT.random(shape, arg, norm_goal="unit"))
    return f


FN24 = ["TensorTrain.random", "process_tt_rank", "trim_ranks"]
for d in (1, 2, 3):
    for rk in ("int", "tuple"):
        for trim in (None, True, False):
            for og in (False, True):
                scenario("C24", f"TensorTrain.random rank {rk} trim {trim}{' orthog' if og else ''} order {d}", d=d, fns=FN24)(
                    _c24tt(d, rk, trim, og, None, d != 2))
for goal in ("norm-1", "norm-preserve"):
    for og in (False, True):
        scenario("C24", f"TensorTrain.random {goal}{' orthog' if og else ''} order 3", d=3, fns=FN24)(_c24tt(3, "tuple", True, og, goal, True))


def _c24bad(d):
    def f(e):
        shape = e.shape(d)
        TT = e.tensor.TensorTrain
        for r in ((e.size("q"),) * d, (e.size("q"),) * (d - 2) if d > 2 else (2, 2, 2)):
            e.raises("rank tuple of wrong length", ValueError, lambda: TT.random(shape, r))
            e.raises("rank tuple of wrong length (zero)", ValueError, lambda: TT.zero(shape, r))
        e.raises("unknown normalization", ValueError, lambda: TT.random(shape, 2, norm_goal="unit", orthog=True))
        e.raises("unknown normalization", ValueError, lambda: TT.random(shape, 2, seed=3, norm_goal=""))
    return f


for d in (1, 2, 3):
    scenario("C24", f"rejected arguments order {d}", d=d, fns=["TensorTrain.random", "TensorTrain.zero"])(_c24bad(d))


def _c24zero(d, rk):
    def f(e):
        shape = e.shape(d)
        r = (e.size("q"),) * (d - 1) if rk == "int" else tuple(e.size(f"q{i}") for i in range(1, d))
        X = e.tensor.TensorTrain.zero(shape, e.size("q") if rk == "int" else r)
        e.shape_is("shape", X.shape, shape)
        e.shape_is("rank", X.rank, r)
        rr = (1,) + tuple(r) + (1,)
        for i, C in enumerate(X.cores):
            e.eq(f"core {i} is zero", C, e.np.zeros((rr[i], shape[i], rr[i + 1])))
        e.eq("represents zero", X.to_numpy(), e.np.zeros(shape))
    return f


def _c24cp(d, seeded):
    def f(e):
        shape, r = e.shape(d), e.size("q")
        X = e.tensor.CPTensor.random(shape, r, **({"seed": e.seed("s")} if seeded else {}))
        e.isa("a CP tensor", X, e.tensor.CPTensor)
        e.shape_is("shape", X.shape, shape)
        e.ieq("rank", X.rank, r)
        e.ieq("number of cores", len(X.cores), d)
        for i, C in enumerate(X.cores):
            e.shape_is(f"shape of core {i}", C.shape, (shape[i], r))
    return f


def _c24tucker(d, rk, seeded):
    def f(e):
        shape = e.shape(d)
        r = (e.size("q"),) * d if rk == "int" else tuple(e.size(f"q{i}") for i in range(d))
        X = e.tensor.TuckerTensor.random(shape, e.size("q") if rk == "int" else (list(r) if rk == "list" else r), **({"seed": e.seed("s")} if seeded else {}))
        want = tuple(e.min(a, b) for a, b in zip(r, shape))
        e.isa("a Tucker tensor", X, e.tensor.TuckerTensor)
        e.shape_is("shape", X.shape, shape)
        e.shape_is("rank capped by the mode sizes", X.rank, want)
        e.shape_is("shape of the core", X.core.shape, want)
        e.ieq("number of factors", len(X.factors), d)
        for i, U in enumerate(X.factors):
            e.eq(f"factor {i} has orthonormal rows", e.np.einsum("ai,bi->ab", U, U), e.np.eye(want[i]))
    return f


def _c24sparse(d, seeded):
    def f(e):
        shape = e.shape(d)
        n = 1
        for s in shape:
            n = n * s
        nnz = e.size("nnz", lo=0)
        e.assume(nnz <= n)
        X = e.tensor.SparseTensor.random(shape, nnz, **({"seed": e.seed("s")} if seeded else {}))
        e.isa("a sparse tensor", X, e.tensor.SparseTensor)
        e.shape_is("shape", X.shape, shape)
        e.ieq("number of nonzeros", X.nnz, nnz)
        e.shape_is("stored entries", X.entries.shape, (nnz,))
        e.distinct_points("coordinates in range and distinct", X.indices, shape, nnz)
    return f


def _c24dense(d):
    def f(e):
        shape = e.shape(d)
        X = e.tensor.DenseTensor.random(shape)
        e.isa("a dense tensor", X, e.tensor.DenseTensor)
        e.shape_is("shape", X.shape, shape)
        e.shape_is("shape of the data", X.data.shape, shape)
    return f


for d in (1, 2, 3):
    for rk in ("int", "tuple"):
        scenario("C24", f"TensorTrain.zero rank {rk} order {d}", d=d, fns=["TensorTrain.zero"])(_c24zero(d, rk))
    for s in (False, True):
        w = " seeded" if s else ""
        scenario("C24", f"CPTensor.random{w} order {d}", d=d, fns=["CPTensor.random"])(_c24cp(d, s))
        for rk in ("int", "tuple", "list"):
            scenario("C24", f"TuckerTensor.random rank {rk}{w} order {d}", d=d, fns=["TuckerTensor.random"])(_c24tucker(d, rk, s))
        scenario("C24", f"SparseTensor.random{w} order {d}", d=d, fns=["SparseTensor.random"])(_c24sparse(d, s))
    scenario("C24", f"DenseTensor.random order {d}", d=d, fns=["DenseTensor.random"])(_c24dense(d))


def _c24mpo(d, rk):
    def f(e):
        a, b = e.shape(d, "n"), e.shape(d, "m")
        r = (e.size("q"),) * (d - 1) if rk == "int" else tuple(e.size(f"q{i}") for i in range(1, d))
        M = e.gmres.MPO.random(e.size("q") if rk == "int" else r, a, b)
        want = e.utils.process_tt_rank(r, tuple(x * y for x, y in zip(a, b)), True)
        e.shape_is("in_shape", M.in_shape, a)
        e.shape_is("out_shape", M.out_shape, b)
        e.shape_is("rank", M.rank, want)
        rr = (1,) + tuple(want) + (1,)
        for i, C in enumerate(M.cores):
            e.shape_is(f"shape of core {i}", C.shape, (rr[i], a[i], b[i], rr[i + 1]))
    return f


for d in (1, 2, 3):
    for rk in ("int", "tuple"):
        scenario("C24", f"MPO.random rank {rk} order {d}", d=d, fns=["MPO.random"])(_c24mpo(d, rk))


# ------------------------------------------------------------------ C25
def count(shape):
    r = 1
    for n in shape:
        r = r * n
    return r


def stored(e, kind, X):
    """the number of stored numbers, from the sizes the tensor was made with"""
    if kind == "dense":
        return count(X.data.shape)
    if kind == "sparse":
        return X.entries.shape[0] * (len(X.shape) + 1)
    if kind == "tucker":
        return count(X.core.shape) + sum(count(U.shape) for U in X.factors)
    return sum(count(C.shape) for C in X.cores)


def _c25(kind, d):
    def f(e):
        shape = e.shape(d)
        X, _ = e.make(kind, "X", shape)
        fr = e.frame(X)
        parts = kind[4:].split("+") if kind.startswith("sum:") else [kind]
        each = X.tensors if kind.startswith("sum:") else [X]
        e.ieq("size", X.size, sum(stored(e, k, Y) for k, Y in zip(parts, each)))
        if kind.startswith("sum:"):
            e.ieq("number of summands", X.num_summands, len(parts))
            Z, _ = e.make("tt", "Z", shape)
            e.ieq("size of a sum with one more summand", (X + Z).size, X.size + stored(e, "tt", Z))
            e.ieq("summands of a sum with one more", (X + Z).num_summands, len(parts) + 1)
            e.ieq("summands of a sum of sums", (X + X).num_summands, 2 * len(parts))
            e.ieq("size of a sum of sums", (X + X).size, 2 * X.size)
        if kind == "sparse":
            e.ieq("number of nonzeros", X.nnz, X.entries.shape[0])
        e.frame_ok("the tensor is unchanged", fr)
        if kind.startswith("sum:"):
            n0 = X.size
            X += e.make("cp", "W", shape)[0]
            e.ieq("size after +=", X.size, n0 + stored(e, "cp", X.tensors[-1]))
            e.ieq("summands after +=", X.num_summands, len(parts) + 1)
    return f


for d in (1, 2, 3, 4):
    for k in ("dense", "sparse", "tt", "cp", "tucker", "sum:tt+cp", "sum:sparse+dense+tucker", "sum:tt+tt+cp+sparse"):
        scenario("C25", f"size of {k} order {d}", d=d, fns=["size", "nnz", "num_summands"])(_c25(k, d))


def _c25mpo(d):
    def f(e):
        a, b = e.shape(d, "n"), e.shape(d, "m")
        rr = (1,) + tuple(e.size(f"q{i}") for i in range(1, d)) + (1,)
        M = e.gmres.MPO([e.arr(f"M{i}", (rr[i], a[i], b[i], rr[i + 1])) for i in range(d)])
        e.ieq("size", M.size, sum(rr[i] * a[i] * b[i] * rr[i + 1] for i in range(d)))
    return f


def _c25sketch(d):
    def f(e):
        shape = e.shape(d)
        l, r = tuple(e.size(f"l{i}") for i in range(1, d)), tuple(e.size(f"r{i}") for i in range(1, d))
        lr, rr = (1,) + l, r + (1,)
        S = e.container.SketchContainer([e.arr(f"P{i}", (lr[i], shape[i], rr[i])) for i in range(d)], [e.arr(f"O{i}", (l[i], r[i])) for i in range(d - 1)])
        L = e.drm.TensorTrainDRM(l, transpose=False, shape=shape, seed=1)
        R = e.drm.TensorTrainDRM(r, transpose=True, shape=shape, seed=2)
        S = e.sketch.SketchedTensorTrain(S, L, R)
        e.ieq("size", S.size, sum(lr[i] * shape[i] * rr[i] for i in range(d)) + sum(x * y for x, y in zip(l, r)))
        X, _ = e.tt("X", shape)
        e.ieq("size of a sum with a sketch", (X + S).size, S.size + stored(e, "tt", X))
    return f


for d in (1, 2, 3):
    scenario("C25", f"size of an operator order {d}", d=d, fns=["MPO.size"])(_c25mpo(d))
for d in (2, 3):
    scenario("C25", f"size of a sketch order {d}", d=d, fns=["SketchedTensorTrain.size"])(_c25sketch(d))
