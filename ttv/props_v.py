"""Contracts for tensors of any order: loops over the modes by invariants, ranks and sizes arbitrary."""
import z3
from .core import Unsupported
from .scen import scenario


def anyorder(prop, name, fns=(), lo=2):
    def reg(f):
        def g(e):
            from . import anyord as V
            f(e, V)
        scenario(prop, name + ", any order", fns=list(fns), unbounded=True, concrete=False)(g)
        return f
    return reg


@anyorder("C01", "tt.to_numpy", ["TensorTrain.to_numpy", "TensorTrain.__init__"])
def _(e, V):
    o = V.Order(e)
    X = V.Cores(o, "X", o.rank("r"))
    P = V.prefix(o, X, "P")
    e.eng.loops = {"TensorTrain.to_numpy": V.Inv(acc=lambda k: P(k + 1))}
    x = e.tensor.TensorTrain(X.list())
    fr = e.frame(x)
    Y = x.to_numpy()
    e.eq("entry = product of the core slices", Y, P.dense())
    e.true("shape", Y.shape == o.shape)
    e.frame_ok("unchanged", fr)


def tt_input(e, V, o, name="X", rank="r"):
    c = V.Cores(o, name, o.rank(rank))
    return c, e.tensor.TensorTrain(c.list())


# ------------------------------------------------------------------ C02 transposition
@anyorder("C02", "tt.T", ["TensorTrain.T"])
def _(e, V):
    o = V.Order(e)
    X, x = tt_input(e, V, o)
    P, Q = V.prefix(o, X, "P"), V.suffix(o, X, "Q")
    fr = e.frame(x)
    y = x.T
    e.frame_ok("operand unchanged", fr)
    V.each(e, "core k of the transpose is core d-1-k with its ranks exchanged", y.cores, lambda k: V.swapped(X.core(o.d - 1 - k)), o.d)
    V.ints(e, "shape reversed", y.shape, lambda k: o.n(o.d - 1 - k), o.d)
    V.ints(e, "ranks reversed", y.rank, lambda k: X.r(o.d - 1 - k), o.d - 1)


@anyorder("C02", "tt.T.to_numpy", ["TensorTrain.T", "TensorTrain.to_numpy"])
def _(e, V):
    o = V.Order(e)
    X, x = tt_input(e, V, o)
    P, Q = V.prefix(o, X, "P"), V.suffix(o, X, "Q")
    V.lemma_split(e, o, X, P, Q)
    e.eng.loops = {"TensorTrain.to_numpy": V.Inv(acc=lambda k: V.flip(Q(o.d - 1 - k)))}
    Y = x.T.to_numpy()
    e.eq("entry (i_d .. i_1) of the transpose = product of the slices of all cores of x at (i_1 .. i_d)", Y, V.flip(V.drop1(Q(0))))


# ------------------------------------------------------------------ C03 arithmetic
def _scaled(op, c0):
    def f(e, V):
        o = V.Order(e)
        X, x = tt_input(e, V, o)
        P = V.prefix(o, X, "P")
        c = e.scalar("c") if c0 is None else c0
        fr = e.frame(x)
        y = op(x, c)
        e.frame_ok("operand unchanged", fr)
        e.eng.loops = {"TensorTrain.to_numpy": V.Inv(acc=lambda k: P(k + 1) if not V.cx.decide(k == o.d - 1) else P(o.d) * c)}
        e.eq("dense values", y.to_numpy(), P.dense() * c)
    return f


for nm, op, c0 in (("tt times scalar", lambda x, c: x * c, None), ("scalar times tt", lambda x, c: c * x, None), ("negated tt", lambda x, c: -x, -1.0)):
    anyorder("C03", nm, ["TensorTrain.__mul__"])(_scaled(op, c0))


# ------------------------------------------------------------------ C04 inner products
@anyorder("C04", "tt dot tt", ["TensorTrain.dot"])
def _(e, V):
    o = V.Order(e)
    X, x = tt_input(e, V, o)
    Y, y = tt_input(e, V, o, "Y", "s")
    P, Q = V.prefix(o, X, "PX"), V.prefix(o, Y, "PY")
    e.eng.loops = {"TensorTrain.dot": V.Inv(acc=lambda k: V.gram(P(k + 1), Q(k + 1)))}
    fr = e.frame(x, y)
    v = x.dot(y)
    e.frame_ok("operands unchanged", fr)
    e.seq("sum over all entries of the products", v, V.full_dot(P.dense(), Q.dense()))


# ------------------------------------------------------------------ C06 sum of two trains
@anyorder("C06", "tt add tt", ["TensorTrain.add"])
def _(e, V):
    o = V.Order(e)
    X, x = tt_input(e, V, o)
    Y, y = tt_input(e, V, o, "Y", "s")
    P, Q = V.prefix(o, X, "PX"), V.prefix(o, Y, "PY")
    e.eng.loops = {"TensorTrain.add": V.Inv(elem=lambda j: V.blockdiag(X.core(j + 1), Y.core(j + 1)))}
    fr = e.frame(x, y)
    z = x.add(y)
    e.frame_ok("operands unchanged", fr)
    e.eng.loops = {"TensorTrain.to_numpy": V.Inv(acc=lambda k: V.beside(P(k + 1), Q(k + 1)) if not V.cx.decide(k == o.d - 1) else P(o.d) + Q(o.d))}
    e.eq("dense values", z.to_numpy(), P.dense() + Q.dense())
    V.ints(e, "ranks add up", z.rank, lambda k: X.r(k + 1) + Y.r(k + 1), o.d - 1)


# ------------------------------------------------------------------ C07 orthogonalization
@anyorder("C07", "orthogonalize", ["TensorTrain.orthogonalize"])
def _(e, V):
    o = V.Order(e)
    X, x = tt_input(e, V, o)
    P = V.prefix(o, X, "P")
    sw = V.OrthSweep(e, o, X)
    PO = V.prefix(o, sw, "PO")
    e.eng.loops = {"TensorTrain.orthogonalize": sw}
    fr = e.frame(x)
    y = x.orthogonalize()
    e.frame_ok("operand unchanged", fr)
    V.ints(e, "shape", y.shape, lambda k: o.n(k), o.d)
    V.ints(e, "ranks at most those of x", y.rank, lambda k: X.r(k + 1), o.d - 1, le=True)
    V.lemma_orth(e, o, sw, P, PO)
    e.eng.loops = {"TensorTrain.to_numpy": V.Inv(acc=lambda k: PO(k + 1) if not V.cx.decide(k == o.d - 1) else P(o.d))}
    e.eq("the same tensor", y.to_numpy(), P.dense())


# ------------------------------------------------------------------ C08 rounding
def _round(with_eps, rk, orth):
    def f(e, V):
        o = V.Order(e, small=False)
        if orth:
            O = V.Cores(o, "O", o.rank("q"))
            V.left_orthogonal(o, O)
            x = e.tensor.TensorTrain(O.list())
        else:
            X, x = tt_input(e, V, o)
            O = V.OrthInput(e, o, of=x).cores
        eps = e.threshold("eps") if with_eps else None
        mr = {"none": None, "int": e.size("mr") if rk == "int" else None, "tuple": o.rank("w").seq() if rk == "tuple" else None}[rk]
        given = {"none": lambda k: O.r(k), "int": lambda k: mr, "tuple": lambda k: o.rank("w")(k)}[rk]
        m = V.rank_contract(e, o, given)
        sw = V.RoundSweep(e, o, O, m, 0 if eps is None else eps)
        e.eng.loops = {"TensorTrain.round": sw}
        fr = e.frame(x)
        y = x.round(eps, mr, orthogonalized=True) if orth else x.round(eps, mr)
        e.frame_ok("operand unchanged", fr)
        e.isa("a tensor train", y, e.tensor.TensorTrain)
        V.ints(e, "shape", y.shape, lambda k: o.n(k), o.d)
        V.ints(e, "ranks at most the maximum ranks", y.rank, lambda k: given(k + 1), o.d - 1, le=True)
        V.ints(e, "ranks", y.rank, lambda k: sw.rho(k + 1), o.d - 1)
        if V.cx.choose(2, "cores") == 0:
            V.each(e, "cores", y.cores, lambda k: sw.V.core(k) if not V.cx.decide(k == 0) else sw.times(0), o.d)
            return
        Sx, Sy = V.lemma_round(e, o, O, sw)
        dx, dy = V.link(O.core(0), Sx(1)), V.link(sw.times(0), Sy(1))
        e.seq("the error is orthogonal to the result", V.full_dot(dx, dy), V.full_dot(dy, dy))
        c, s = sw.carry(1), Sx(1)
        e.seq("squared norm of the result", V.full_dot(dy, dy), V.full_dot(c, c))
        e.seq("squared norm of the tensor", V.full_dot(dx, dx), V.full_dot(s, s))
    return f


for we in (False, True):
    for rk in ("none", "int", "tuple"):
        for og in (False, True):
            anyorder("C08", f"round{' eps' if we else ''} max_rank {rk}{' orthogonalized' if og else ''}", ["TensorTrain.round"])(_round(we, rk, og))


@anyorder("C04", "norm of a tt", ["TensorTrain.norm"])
def _(e, V):
    o = V.Order(e, small=False)
    X, x = tt_input(e, V, o)
    O = V.OrthInput(e, o, of=x).cores
    fr = e.frame(x)
    v = x.norm()
    e.frame_ok("operand unchanged", fr)
    PO = V.lemma_left(e, o, O)
    D = V.link(PO(o.d - 1), O.core(o.d - 1))
    last = O.core(o.d - 1)
    e.seq("norm of the last core", v, e.np.linalg.norm(last))
    e.seq("its square is the sum of the squares of all entries", e.np.sum(last * last), V.full_dot(D, D))


# ------------------------------------------------------------------ C10 singular values
@anyorder("C10", "svdvals", ["TensorTrain.svdvals"])
def _(e, V):
    from .core import mk
    o = V.Order(e, small=False)
    X, x = tt_input(e, V, o)
    O = V.OrthInput(e, o, of=x).cores
    sw = V.SvdSweep(e, o, O)
    e.eng.loops = {"TensorTrain.svdvals": sw}
    fr = e.frame(x)
    R = x.svdvals()
    e.frame_ok("operand unchanged", fr)
    V.each(e, "list k holds the singular values at bond k (list 0: at bond 1)", R, lambda k: sw.S(k) if not V.cx.decide(k == 0) else sw.zero()[1], o.d, fork=True)
    PO = V.lemma_left(e, o, O)
    W, Q = V.lemma_svd(e, o, O, sw)
    V.lemma_split(e, o, O, V.prefix(o, O, "PP"), V.suffix(o, O, "QQ"))
    if V.cx.choose(2, "bond") == 0:
        k = V.generic(1, o.d)
        P = V.link(PO(k), sw.U(k))
        e.eq("columns of P are orthonormal", V.cols_dot(P, P), e.np.eye(mk(sw.s(k))))
        w = W(k)
        e.eq("rows of W are orthonormal", V.rows_dot(w, w), e.np.eye(mk(sw.s(k))))
        # Q(k) = U S W(k): PO(k) Q(k) = P diag(S) W
        e.eq("unfolding = P diag(S) W", V.link(PO(k), V.link(sw.US(k), W(k))), V.link(P * sw.S(k), W(k)))


# ------------------------------------------------------------------ C09 TT-SVD
def _tt_svd(rk):
    def f(e, V):
        from .core import mk
        o = V.Order(e, small=False)
        mod = e.mod("tt_sketch.tt_svd")
        rank = None if rk == "none" else e.size("mr") if rk == "int" else o.rank("w").seq()
        given = {"none": lambda k: e.np.prod(x.shape, dtype=int), "int": lambda k: rank, "tuple": lambda k: o.rank("w")(k)}[rk]
        m = V.rank_contract(e, o, given, mod=mod)
        sw = V.TtSvdSweep(e, o, m)
        X = sw.T(0)
        x = e.tensor.DenseTensor(X)
        e.eng.loops = {"tt_svd": sw}
        fr = e.frame(x)
        y = mod.tt_svd(x) if rank is None else mod.tt_svd(x, rank)
        e.frame_ok("the tensor is unchanged", fr)
        e.isa("a tensor train", y, e.tensor.TensorTrain)
        V.ints(e, "shape", y.shape, lambda k: o.n(k), o.d)
        V.ints(e, "ranks at most the maximum ranks", y.rank, lambda k: given(k + 1), o.d - 1, le=True)
        V.ints(e, "ranks", y.rank, lambda k: sw.s(k + 1), o.d - 1)
        V.each(e, "cores", y.cores, lambda k: sw.U.core(k) if not V.cx.decide(k == o.d - 1) else sw.last(), o.d, fork=True)
        V.lemma_tt_svd(e, o, sw)
    return f


for rk in ("none", "int", "tuple"):
    anyorder("C09", f"tt_svd rank {rk}", ["tt_svd"])(_tt_svd(rk))


# ------------------------------------------------------------------ C23 TT-GMRES, any number of iterations
def _gmres(with_precond, with_x0):
    def f(e):
        from . import anyord as V, krylov as K
        from .core import mk, Z
        from .term import Family, Expr, Term, Atom
        cx = V.cx
        cx.opaque["loose"] = True
        g = e.mod("tt_sketch.tt_gmres")
        np = e.np
        shape = e.shape(2)
        sp = K.Space(e, shape)
        N = sp.N
        maxiter = e.size("maxiter")
        M, B, P = e.arr("M", (N, N)), e.arr("B", (N, N)), e.arr("P", (N, N)) if with_precond else None
        # the matrix M of the preconditioned system is P A: A is M and P the identity without a preconditioner
        A_ = e.arr("A", (N, N)) if with_precond else M
        fM = M.body.t[0].at[0].fam
        if with_precond:
            fP, fA = P.body.t[0].at[0].fam, A_.body.t[0].at[0].fam
            cx.rules.append(K.T.PairRule(fP, (1,), fA, (0,), lambda pa, pb: True, lambda pa, pb, ra, rb: Expr([Term(1, at=(Atom(fM, (), (ra[0], rb[0])),))]), "M = P A", size=Z(N)))
        calls = []

        class Map:
            in_shape = out_shape = shape

            def __call__(self, x):
                y = B @ x.v
                return e.tensor.TensorSum([sp.Vec(A_ @ x.v - y), sp.Vec(y)])
        pre = (lambda x: sp.Vec(P @ x.v)) if with_precond else None
        b = sp.vec("b")
        x0 = sp.vec("x0") if with_x0 else None
        mr, fr, tol = e.size("mr"), e.size("fr"), e.scalar("tol")
        trimmed, rounded = object(), []

        def trim(r, s, trim=True):
            e.true("maximum rank trimmed for the shape of the tensor", r is mr and s == shape and trim is True)
            return trimmed
        g.process_tt_rank = trim

        def zero(shape, rank):
            e.true("initial value of the right shape", shape == sp.shape)
            return sp.Vec(np.zeros((N,)))
        e.tensor.TensorTrain.zero = staticmethod(zero)

        def rnd(tt_sum, max_rank=None, eps=None, method="sketch", oversample_factor=2):
            rounded.append((max_rank, eps, method))
            return sp.Vec(sp.total(tt_sum))
        g.round_tt_sum = rnd
        bn = b.norm()
        xv = x0.v if with_x0 else np.zeros((N,))
        basis = K.Basis(e, sp, maxiter, fM)
        loop = K.GmresLoop(e, basis, tol, bn)
        bp = P @ b.v if with_precond else b.v
        loop.r0 = bp - M @ xv
        loop.entered = False
        e.eng.loops = {("tt_sum_gmres", 0): loop}
        frame = e.frame(b, x0) if with_x0 else e.frame(b)
        x, h = g.tt_sum_gmres(Map(), b, mr, precond=pre, final_round_rank=fr, x0=x0, tolerance=tol, maxiter=maxiter)
        e.frame_ok("right-hand side and initial value unchanged", frame)
        e.true("the final rounding is at the final rank, without a threshold", rounded[-1][0] is fr and rounded[-1][1] is None)
        e.true("other roundings are at the trimmed rank", all(r[0] is trimmed for r in rounded[:-1]))
        rn = h["residual_norm"]
        if not loop.entered:
            r = np.sqrt(np.abs(np.sum(loop.r0 * loop.r0)))
            e.eq("no iteration: the initial value", x.v, xv)
            e.ieq("one reported residual norm", len(rn), 1)
            e.seq("it is that of the initial value", rn[0], r / bn)
            e.true("it is zero or below the tolerance", bool(r == 0) or bool(rn[0] < tol))
            return
        k = loop.ended if loop.ended is not None else Z(maxiter)     # number of iterations
        kk = mk(k)
        basis.known = k
        H, Nu = basis.H(k), basis.matrix(k)
        y, res = loop.least(H, kk, loop.beta)
        e.eq("result: initial value plus the combination of the basis", x.v, xv + y @ Nu)
        s = V.seq_of(rn)
        e.ieq("reported residual norms", mk(s.zlen()), kk + 1)
        e.seq("the last reported residual norm", s.at(k), res / bn)
        # the true residual of the result, with r0 = beta nu(0) (proved before the loop)
        r = basis.nu(0).v * loop.beta - M @ (y @ Nu)
        e.seq("it is the norm of the true preconditioned residual", res, np.sqrt(np.abs(np.sum(r * r))))
        e1 = np.zeros(kk + 1)
        e1[0] = loop.beta
        Hr = H[:kk + 1, :kk]
        e.eq("inner products of the residual with the images of the basis: the normal equations of the least-squares problem", (M @ Nu.T).T @ r, Hr.T @ (e1 - Hr @ y))
    return f


for wp in (False, True):
    for wx in (False, True):
        scenario("C23", f"tt_sum_gmres{' preconditioned' if wp else ''}{' initial value' if wx else ''}, any number of iterations", fns=["tt_sum_gmres"], unbounded=True, concrete=False)(_gmres(wp, wx))


# ------------------------------------------------------------------ C11 rank trimming, any order
def _trim(kind):
    def f(e, V):
        from . import trim
        trim.contract(kind)(e)
    return f


for kind in ("int", "tuple", "list"):
    anyorder("C11", f"process_tt_rank with {kind}", ["process_tt_rank", "trim_ranks"])(_trim(kind))


# ------------------------------------------------------------------ C25 sizes
def total(V, n, f, lo=0):
    """f(lo) + ... + f(n-1)"""
    from .core import mk
    from .seqs import Gen, mkseq, sumseq
    from .seqs import of
    import z3 as z
    return sumseq(of(mkseq([Gen(z.IntVal(lo), V.S(n), lambda k: mk(f(k)))], "list")))


@anyorder("C25", "size of a tt", ["TensorTrain.size"])
def _(e, V):
    o = V.Order(e)
    X, x = tt_input(e, V, o)
    fr = e.frame(x)
    e.ieq("the number of core entries", x.size, total(V, o.d, lambda k: X.r(k) * o.n(k) * X.r(k + 1)))
    e.frame_ok("unchanged", fr)


@anyorder("C25", "size of a sum of any number of tensors", ["TensorSum.size", "TensorSum.num_summands", "TensorSum.__add__", "TensorSum.__iadd__"])
def _(e, V):
    from .core import mk
    o = V.Order(e)
    U, W = V.Summands(e, o), V.Summands(e, o, "E", "l")
    x, y = e.tensor.TensorSum(U.list()), e.tensor.TensorSum(W.list())
    fr = e.frame(x, y)
    a, b = total(V, V.Z(U.m), U.size), total(V, V.Z(W.m), W.size)
    e.ieq("size", x.size, a)
    e.ieq("summands", x.num_summands, U.m)
    s = x + y
    e.ieq("size of a sum of sums", s.size, a + b)
    e.ieq("summands of a sum of sums", s.num_summands, U.m + W.m)
    z = W.item(0)
    s = x + z
    e.ieq("size with one more", s.size, a + z.size)
    e.ieq("summands with one more", s.num_summands, U.m + 1)
    e.frame_ok("unchanged", fr)
    fr = e.frame(y)
    x0 = x
    x += y
    e.true("in place", x is x0)
    e.ieq("size after +=", x.size, a + b)
    e.ieq("summands after +=", x.num_summands, U.m + W.m)
    x += z
    e.ieq("size after another +=", x.size, a + b + z.size)
    e.ieq("summands after another +=", x.num_summands, U.m + W.m + 1)
    e.frame_ok("the other sum is unchanged", fr)


# ------------------------------------------------------------------ C01-C04 sums of any number of tensors
@anyorder("C01", "dense array of a sum of any number of tensors", ["TensorSum.to_numpy"])
def _(e, V):
    o = V.Order(e, lo=0, small=False)
    U = V.Summands(e, o)
    x = e.tensor.TensorSum(U.list())
    e.eng.loops = {"TensorSum.to_numpy": V.Inv(acc=lambda k: U.partial(k))}
    fr = e.frame(x)
    Y = x.to_numpy()
    e.eq("sum of the dense arrays", Y, U.partial(V.Z(U.m)))
    e.true("shape", Y.shape == o.shape)
    e.frame_ok("unchanged", fr)


@anyorder("C02", "transpose of a sum of any number of tensors", ["TensorSum.T", "TensorSum.to_numpy"])
def _(e, V):
    o = V.Order(e, lo=0, small=False)
    U = V.Summands(e, o)
    x = e.tensor.TensorSum(U.list())
    fr = e.frame(x)
    y = x.T
    e.ieq("number of summands", y.num_summands, U.m)
    V.ints(e, "shape reversed", y.shape, lambda k: o.n(o.d - 1 - k), o.d)
    e.eng.loops = {"TensorSum.to_numpy": V.Inv(acc=lambda k: V.flip(U.partial(k)))}
    e.eq("reversed modes of the sum of the dense arrays", y.to_numpy(), V.flip(U.partial(V.Z(U.m))))
    e.frame_ok("unchanged", fr)


def _sum_scaled(op, weight, many):
    def f(e, V):
        o = V.Order(e, lo=0, small=False)
        U = V.Summands(e, o)
        x = e.tensor.TensorSum(U.list())
        w = V.Numbers("w")
        c = w.list(U.m) if many else e.scalar("c")
        fr = e.frame(x)
        y = op(x, c)
        e.frame_ok("operand unchanged", fr)
        wt = (lambda j: w.term(j)) if many else (lambda j: weight(c).e)
        e.eng.loops = {"TensorSum.to_numpy": V.Inv(acc=lambda k: U.partial(k, wt, "PW"))}
        e.eq("weighted sum of the dense arrays", y.to_numpy(), U.partial(V.Z(U.m), wt, "PW"))
        e.ieq("number of summands", y.num_summands, U.m)
        if many:
            e.raises("numbers for other than the summands", ValueError, lambda: x * w.list(U.m + 1))
    return f


for nm, op, wt, many in (("sum times scalar", lambda x, c: x * c, lambda c: c, False), ("scalar times sum", lambda x, c: c * x, lambda c: c, False),
                         ("negated sum", lambda x, c: -x, lambda c: c * 0 - 1, False), ("sum divided by a scalar", lambda x, c: x / c, lambda c: 1 / c, False),
                         ("sum times a list of scalars", lambda x, c: x * c, None, True)):
    anyorder("C03", f"{nm}, any number of summands", ["TensorSum.__mul__"])(_sum_scaled(op, wt, many))


def _sum_add(op, other, sign):
    def f(e, V):
        from .core import Z
        o = V.Order(e, lo=0, small=False)
        U, W = V.Summands(e, o), V.Summands(e, o, "E", "l")
        x = e.tensor.TensorSum(U.list())
        y = e.tensor.TensorSum(W.list()) if other == "sum" else W.item(0)
        fr, fy = e.frame(x), e.frame(y)
        z = op(x, y)
        e.frame_ok("right operand unchanged", fy)
        if op is not iadd:
            e.frame_ok("left operand unchanged", fr)
        else:
            e.true("in place", z is x)
        m, l = Z(U.m), (Z(W.m) if other == "sum" else V.z3.IntVal(1))
        e.ieq("number of summands", z.num_summands, V.mk(V.S(m + l)))
        wt = (lambda j: V.T.const(sign))

        def acc(k):
            if V.cx.decide(k <= m):
                return U.partial(k)
            return U.partial(m) + W.partial(V.S(k - m), wt, "PE")
        e.eng.loops = {"TensorSum.to_numpy": V.Inv(acc=acc)}
        e.eq("sum of the dense arrays", z.to_numpy(), acc(V.S(m + l)))
    return f


def iadd(x, y):
    x += y
    return x


for nm, op, sg in (("plus", lambda x, y: x + y, 1), ("minus", lambda x, y: x - y, -1), ("+=", iadd, 1)):
    for other in ("sum", "tensor"):
        anyorder("C03", f"sum of any number of tensors {nm} a {other}", ["TensorSum.__add__", "TensorSum.__iadd__", "TensorSum.__mul__"])(_sum_add(op, other, sg))


@anyorder("C04", "inner product with a sum of any number of tensors", ["TensorSum.dot"])
def _(e, V):
    o = V.Order(e, lo=0, small=False)
    U = V.Summands(e, o)
    w = V.Numbers("ip")
    y = object()

    def dot(self, other, reverse=False):
        e.true("with the other tensor", other is y and reverse is rev)
        return w(self.j)
    U.cls.dot = dot
    x = e.tensor.TensorSum(U.list())
    for rev in (False, True):
        e.seq("sum of the inner products", x.dot(y, rev), w.total(V.Z(U.m)))
    rev = False
    e.seq("not reversed unless asked for", x.dot(y), w.total(V.Z(U.m)))


@anyorder("C03", "a tensor plus and minus a sum of any number of tensors", ["Tensor.__add__", "Tensor.__sub__", "TensorSum.__mul__"])
def _(e, V):
    o = V.Order(e, lo=0, small=False)
    U, W = V.Summands(e, o), V.Summands(e, o, "E", "l")
    x, y = U.item(0), e.tensor.TensorSum(W.list())
    sg = 1 - 2 * V.cx.choose(2, "sign")
    fr = e.frame(x, y)
    z = x + y if sg == 1 else x - y
    e.frame_ok("operands unchanged", fr)
    e.ieq("number of summands", z.num_summands, W.m + 1)
    wt = (lambda j: V.T.const(sg))

    def acc(k):
        if V.cx.decide(k == 0):
            return U.partial(0)
        return U.partial(1) + W.partial(V.S(k - 1), wt, "PE")
    e.eng.loops = {"TensorSum.to_numpy": V.Inv(acc=acc)}
    e.eq("sum of the dense arrays", z.to_numpy(), acc(V.S(W.m + 1)))


@anyorder("C25", "size of a cp", ["CPTensor.size"])
def _(e, V):
    o = V.Order(e, lo=0, small=False)
    r = e.size("r")
    C = V.Arrays("C", lambda k: (("mode", o.base, k), r), o.d)
    x = e.tensor.CPTensor(C.list())
    fr = e.frame(x)
    e.ieq("the number of core entries", x.size, total(V, o.d, lambda k: o.n(k) * V.Z(r)))
    e.frame_ok("unchanged", fr)


@anyorder("C25", "size of a sparse tensor", ["SparseTensor.size", "SparseTensor.nnz", "Tensor.ndim"])
def _(e, V):
    o = V.Order(e)
    J, v, x = sparse_input(e, V, o)
    fr = e.frame(x)
    e.ieq("stored entries", x.nnz, V.mk(J.N))
    e.ieq("stored entries and their coordinates", x.size, V.mk(J.N) * (V.mk(o.d) + 1))
    e.frame_ok("unchanged", fr)


@anyorder("C25", "size of an operator", ["MPO.size"])
def _(e, V):
    o = V.Order(e)
    m, r = V.intfun("mm"), o.rank("r")
    C = V.Arrays("M", lambda k: (r(k), o.n(k), m(k), r(k + 1)), o.d)
    x = e.gmres.MPO(V.mkseq([("e", C(0)), V.Gen(V.z3.IntVal(1), V.S(o.d - 1), C), ("e", C(o.d - 1))], "list"))
    e.ieq("the number of core entries", x.size, total(V, o.d, lambda k: r(k) * o.n(k) * m(k) * r(k + 1)))


@anyorder("C25", "size of a sketch", ["SketchedTensorTrain.size"])
def _(e, V):
    o = V.Order(e)
    l, r = o.rank("l"), o.rank("r")
    P = V.Arrays("Psi", lambda k: (l(k), o.n(k), r(k + 1)), o.d)
    O = V.Arrays("Om", lambda k: (l(k), r(k)), o.d, lo=1)
    c = e.container.SketchContainer(V.mkseq([("e", P(0)), V.Gen(V.z3.IntVal(1), V.S(o.d - 1), P), ("e", P(o.d - 1))], "list"), O.list())
    S = e.sketch.SketchedTensorTrain(c, None, None)
    e.ieq("the entries of Psi and Omega", S.size, total(V, o.d, lambda k: l(k) * o.n(k) * r(k + 1)) + total(V, o.d, lambda k: l(k) * r(k), lo=1))


# ------------------------------------------------------------------ canonical polyadic tensors
def cp_input(e, V, o, name="C", rank="r"):
    r = e.size(rank)
    C = V.Arrays(name, lambda k: (("mode", o.base, k), r), o.d)
    return C, r, e.tensor.CPTensor(C.list())


@anyorder("C01", "cp.to_numpy", ["CPTensor.to_numpy", "CPTensor.__init__"])
def _(e, V):
    o = V.Order(e, lo=0, small=False)
    C, r, x = cp_input(e, V, o)
    P = V.cp_prefix(o, C, r)
    e.eng.loops = {"CPTensor.to_numpy": V.Inv(acc=lambda k: P(k + 1))}
    fr = e.frame(x)
    V.ints(e, "shape", x.shape, lambda k: o.n(k), o.d)
    Y = x.to_numpy()
    e.eq("entry = sum over the components of the product of the core entries", Y, P.dense())
    e.true("shape of the array", Y.shape == o.shape)
    e.frame_ok("unchanged", fr)


# ------------------------------------------------------------------ Tucker tensors
def sparse_input(e, V, o, name="E", nnz="nnz"):
    J = V.Coords(e, o, e.size(nnz, lo=2), "J" + name)
    v = e.arr(name, (V.mk(J.N),))
    return J, v, e.tensor.SparseTensor(o.shape, J.indices(), v)


@anyorder("C01", "sparse.to_numpy", ["SparseTensor.to_numpy", "SparseTensor.__post_init__"])
def _(e, V):
    o = V.Order(e)
    J, v, x = sparse_input(e, V, o)
    fr = e.frame(x)
    Y = x.to_numpy()
    e.frame_ok("unchanged", fr)
    e.eq("entry I = sum of the stored values at the coordinates I", Y, J.dense(v))
    e.true("shape", Y.shape == o.shape)


@anyorder("C02", "sparse.T", ["SparseTensor.T", "SparseTensor.to_numpy"])
def _(e, V):
    o = V.Order(e)
    J, v, x = sparse_input(e, V, o)
    fr = e.frame(x)
    y = x.T
    e.frame_ok("operand unchanged", fr)
    V.ints(e, "shape reversed", y.shape, lambda k: o.n(o.d - 1 - k), o.d)
    e.eq("dense values", y.to_numpy(), V.flip(J.dense(v)))


for nm, op, c0 in (("sparse times scalar", lambda x, c: x * c, None), ("scalar times sparse", lambda x, c: c * x, None), ("negated sparse", lambda x, c: -x, -1.0)):
    def _f(op, c0):
        def f(e, V):
            o = V.Order(e)
            J, v, x = sparse_input(e, V, o)
            c = e.scalar("c") if c0 is None else c0
            fr = e.frame(x)
            y = op(x, c)
            e.frame_ok("operand unchanged", fr)
            e.eq("dense values", y.to_numpy(), J.dense(v) * c)
        return f
    anyorder("C03", nm, ["SparseTensor.__mul__", "SparseTensor.to_numpy"])(_f(op, c0))


# ------------------------------------------------------------------ C05 entries at given points
def points_input(e, V, o, form, name="I", n="N"):
    J = V.Coords(e, o, e.size(n, lo=2), name, distinct=False)
    return J, (J.indices() if form == "array" else J.rows())


def _tt_gather(form):
    def f(e, V):
        o = V.Order(e)
        X, x = tt_input(e, V, o)
        J, I = points_input(e, V, o, form)
        P = V.prefix(o, X, "P")
        G = lambda k: V.gram(J.P(k), P(k))
        e.eng.loops = {("TensorTrain.gather", 0): V.Inv(acc=lambda k: G(V.S(k + 1)))}
        fr = e.frame(x, I)
        y = x.gather(I)
        e.frame_ok("tensor and points unchanged", fr)
        e.eq("entry q = sum over I of [I = point q] (entry I of the dense array)", y, V.drop1(G(o.d)))
    return f


for form in ("array", "tuple of arrays"):
    anyorder("C05", f"tt.gather at the points of {form}", ["TensorTrain.gather"])(_tt_gather(form))


def _cp_gather(form):
    def f(e, V):
        o = V.Order(e)
        C, r, x = cp_input(e, V, o)
        J, I = points_input(e, V, o, form)
        P = V.cp_prefix(o, C, r)
        G = lambda k: V.gram(J.P(k), P(k))
        e.eng.loops = {"CPTensor.gather": V.Inv(acc=lambda k: 1 if V.cx.decide(k == 0) else G(k))}
        fr = e.frame(x, I)
        y = x.gather(I)
        e.frame_ok("tensor and points unchanged", fr)
        e.eq("entry q = sum over I of [I = point q] (entry I of the dense array)", y, e.np.sum(G(o.d), axis=1))
    return f


def _sparse_gather(form):
    def f(e, V):
        o = V.Order(e, small=False)
        J, v, x = sparse_input(e, V, o)
        K, I = points_input(e, V, o, form)
        fr = e.frame(x, I)
        y = x.gather(I)
        e.frame_ok("tensor and points unchanged", fr)
        e.eq("entry q = sum over I of [I = point q] (entry I of the dense array)", y, K.read(J.dense(v)))
    return f


for form in ("array", "tuple of arrays"):
    anyorder("C05", f"sparse.gather at the points of {form}", ["SparseTensor.gather", "SparseTensor.dict"])(_sparse_gather(form))


def _split_any(m):
    def f(e, V):
        o = V.Order(e, small=False)
        J, v, x = sparse_input(e, V, o)
        fr = e.frame(x)
        S = x.split(m)
        e.frame_ok("split leaves the tensor unchanged", fr)
        e.ieq("number of summands", len(S.tensors), m)
        size = x.nnz // m
        blocks = [(i * size, (i + 1) * size if i < m - 1 else x.nnz) for i in range(m)]
        for i, (s, (lo, hi)) in enumerate(zip(S.tensors, blocks)):
            e.true(f"shape of summand {i}", s.shape == o.shape)
            e.eq(f"entries of summand {i}: the next block", s.entries, v[lo:hi])
        i = V.cx.choose(m, ("summand", m)) if m > 1 else 0
        s, (lo, hi) = S.tensors[i], blocks[i]
        rows = V.seq_of(s.indices.rows() if isinstance(s.indices, V.snp.SymRows) else s.indices)
        e.ieq(f"summand {i}: one row of coordinates per mode", V.mk(rows.zlen()), V.mk(o.d))
        k = V.generic(0, o.d)
        row = rows.at(k)
        e.shape_is(f"coordinates of summand {i}: one per entry", row.shape, (V.mk(V.Z(hi - lo)),))
        q = V.generic(0, V.Z(hi - lo))
        e.ieq(f"coordinates of summand {i}: the next block", row[V.mk(q)], J.row(k)[V.mk(V.S(q + V.Z(lo)))])
    return f


for m in (1, 2, 3):
    anyorder("C05", f"split into {m}", ["SparseTensor.split"])(_split_any(m))


def _sparse_dot(kind):
    def f(e, V):
        o = V.Order(e, small=False)
        J, v, x = sparse_input(e, V, o)
        if kind == "tt":
            X, y = tt_input(e, V, o)
            P = V.prefix(o, X, "P")
            e.eng.loops = {("TensorTrain.gather", 0): V.Inv(acc=lambda k: V.gram(J.P(V.S(k + 1)), P(V.S(k + 1))))}
            D = P.dense()
        elif kind == "cp":
            C, r, y = cp_input(e, V, o)
            P = V.cp_prefix(o, C, r)
            e.eng.loops = {"CPTensor.gather": V.Inv(acc=lambda k: 1 if V.cx.decide(k == 0) else V.gram(J.P(k), P(k)))}
            D = P.dense()
        else:
            J2, w, y = sparse_input(e, V, o, "F", "nnz2")
            D = J2.dense(w)
        want = V.full_dot(J.dense(v), D)
        fr = e.frame(x, y)
        e.seq("sparse dot " + kind, x.dot(y), want)
        if kind != "sparse":
            e.seq(kind + " dot sparse", y.dot(x), want)
        e.seq("matmul", x @ y, want)
        e.frame_ok("operands unchanged", fr)
    return f


for kind in ("tt", "cp", "sparse"):
    anyorder("C04", f"sparse dot {kind}", ["SparseTensor.dot", "Tensor.dot", {"tt": "TensorTrain", "cp": "CPTensor", "sparse": "SparseTensor"}[kind] + ".gather"])(_sparse_dot(kind))


def any_tensor(e, V, o, kind, tag):
    """a tensor, its dense array, contracts of its loops"""
    if kind == "tt":
        X, x = tt_input(e, V, o, "X" + tag, "q" + tag)
        P = V.prefix(o, X, "PX" + tag)
        return x, P.dense(), {"TensorTrain.to_numpy": ("cores", lambda: X.fam, V.Inv(acc=lambda k: P(k + 1)))}
    if kind == "cp":
        C, r, x = cp_input(e, V, o, "C" + tag, "r" + tag)
        P = V.cp_prefix(o, C, r, "PC" + tag)
        return x, P.dense(), {"CPTensor.to_numpy": ("cores", lambda: C.fam, V.Inv(acc=lambda k: P(k + 1)))}
    if kind == "tucker":
        K = V.Tucker(e, o, "K" + tag, "s" + tag)
        return K.tensor(e), K.W(o.d, True), {"TuckerTensor.to_numpy": ("factors", lambda: K.U.fam, V.Inv(acc=lambda k: K.W(0) if V.cx.decide(k == 0) else K.W(k)))}
    if kind == "sparse":
        J, v, x = sparse_input(e, V, o, "J" + tag, "nnz" + tag)
        return x, J.dense(v), {}
    D = V.opaque_dense(o, "D" + tag)
    return e.tensor.DenseTensor(D), D, {}


def own_loops(e, V, *loops):
    """contracts of the loops of several tensors: a loop has the contract of the tensor that it runs over"""
    from . import anysk as K
    e.eng.loops = {}
    for ls in loops:
        for q, (field, fam, spec) in ls.items():
            e.eng.loops[q] = K.PerOwner(e.eng.loops.get(q), field, fam, spec)


def _dense_dot(a, b):
    def f(e, V):
        o = V.Order(e, small=False)
        V.cx.decide(o.d == 1)
        x, X, lx = any_tensor(e, V, o, a, "1")
        y, Y, ly = any_tensor(e, V, o, b, "2")
        own_loops(e, V, lx, ly)
        fr = e.frame(x, y)
        want = V.full_dot(X, Y)
        e.seq(f"{a} dot {b}", x.dot(y), want)
        if a != b:
            e.seq(f"{b} dot {a}", y.dot(x), want)
        e.seq("matmul", x @ y, want)
        e.frame_ok("operands unchanged", fr)
    return f


KINDS = ("tt", "cp", "tucker", "sparse", "dense")
for i, a in enumerate(KINDS):
    for b in KINDS[i:]:
        if (a, b) not in (("tt", "tt"), ("tt", "sparse"), ("cp", "sparse"), ("sparse", "sparse")):
            anyorder("C04", f"{a} dot {b}", ["Tensor.dot", "Tensor.__matmul__"])(_dense_dot(a, b))


def _norm_any(kind):
    def f(e, V):
        o = V.Order(e, small=False)
        V.cx.decide(o.d == 1)
        x, X, lx = any_tensor(e, V, o, kind, "1")
        own_loops(e, V, lx)
        fr = e.frame(x)
        e.seq("norm", x.norm(), e.np.linalg.norm(X))
        e.frame_ok("unchanged", fr)
    return f


for kind in ("cp", "tucker", "dense"):
    anyorder("C04", f"norm of a {kind}", ["Tensor.norm", "Tensor.dot"])(_norm_any(kind))


def _error_any(a, b):
    def f(e, V):
        o = V.Order(e, small=False)
        V.cx.decide(o.d == 1)
        relative, rmse = V.cx.choose(2, ("relative",)) == 1, V.cx.choose(2, ("rmse",)) == 1
        x, X, lx = any_tensor(e, V, o, a, "1")
        y, Y, ly = any_tensor(e, V, o, b, "2")
        own_loops(e, V, lx, ly)
        fr = e.frame(x, y)
        err = x.error(y, relative=relative, rmse=rmse)
        e.frame_ok("operands unchanged", fr)
        ref = e.np.linalg.norm(y.entries if b == "sparse" else Y)      # equal: norm of a sparse tensor
        if relative and ref == 0:
            e.true("infinite relative error", err == float("inf"))
            return
        want = e.np.linalg.norm(X - Y)
        if relative:
            want = want / ref
        if rmse:
            want = want / e.np.sqrt(e.np.prod(o.shape, dtype=float))
        e.seq("error", err, want)
    return f


for a in KINDS:
    for b in KINDS:
        if b != "tt":
            anyorder("C04", f"error of a {a} against a {b}", ["Tensor.error", "Tensor.norm"] + (["TensorTrain.error"] if a == "tt" else []))(_error_any(a, b))


@anyorder("C04", "norm of a sparse tensor", ["SparseTensor.norm"])
def _(e, V):
    o = V.Order(e, small=False)
    J, v, x = sparse_input(e, V, o)
    fr = e.frame(x)
    n = x.norm()
    e.frame_ok("unchanged", fr)
    D = J.dense(v)
    e.seq("norm of the stored entries", n, e.np.linalg.norm(v))
    e.seq("its square is the sum of the squares of all entries", e.np.sum(v * v), V.full_dot(D, D))


for form in ("array", "tuple of arrays"):
    anyorder("C05", f"cp.gather at the points of {form}", ["CPTensor.gather"])(_cp_gather(form))


@anyorder("C01", "tucker.to_numpy", ["TuckerTensor.to_numpy", "TuckerTensor.__init__"])
def _(e, V):
    o = V.Order(e, lo=0, small=False)
    V.cx.decide(o.d == 1)
    K = V.Tucker(e, o)
    x = K.tensor(e)
    e.eng.loops = {"TuckerTensor.to_numpy": V.Inv(acc=lambda k: K.W(0) if V.cx.decide(k == 0) else K.W(k))}
    fr = e.frame(x)
    V.ints(e, "shape", x.shape, lambda k: o.n(k), o.d)
    V.ints(e, "ranks", x.rank, lambda k: K.q(k), o.d)
    Y = x.to_numpy()
    e.eq("the core with every factor applied", Y, K.W(o.d, True))
    e.true("shape of the array", Y.shape == o.shape)
    e.frame_ok("unchanged", fr)


@anyorder("C02", "tucker.T", ["TuckerTensor.T", "TuckerTensor.to_numpy"])
def _(e, V):
    o = V.Order(e, lo=0, small=False)
    V.cx.decide(o.d == 1)
    K = V.Tucker(e, o)
    K.lemma(e)
    x = K.tensor(e)
    fr = e.frame(x)
    y = x.T
    e.frame_ok("operand unchanged", fr)
    V.ints(e, "shape reversed", y.shape, lambda k: o.n(o.d - 1 - k), o.d)
    V.ints(e, "ranks reversed", y.rank, lambda k: K.q(o.d - 1 - k), o.d)
    e.eng.loops = {"TuckerTensor.to_numpy": V.Inv(acc=lambda k: K.back(o.d) if V.cx.decide(k == 0) else K.back(o.d - k))}
    e.eq("dense array of the transpose: that of x with its modes reversed", y.to_numpy(), K.back(0, True))


@anyorder("C02", "cp.T", ["CPTensor.T", "CPTensor.to_numpy"])
def _(e, V):
    from .core import PathDone
    o = V.Order(e, lo=0, small=False)
    C, r, x = cp_input(e, V, o)
    P, Q = V.cp_prefix(o, C, r), V.cp_suffix(o, C, r)
    if V.cx.choose(2, "cp lemma") == 0:
        k = V.generic(0, o.d)
        V.cx.decide(k == 0)
        V.cx.decide(k == o.d - 1)
        e.eq("lemma: the product does not depend on where it is split", V.join2(V.hadamard_link(P(k), Q(k))), V.join2(V.hadamard_link(P(k + 1), Q(k + 1))))
        raise PathDone()
    fr = e.frame(x)
    y = x.T
    e.frame_ok("operand unchanged", fr)
    V.ints(e, "shape reversed", y.shape, lambda k: o.n(o.d - 1 - k), o.d)
    e.eng.loops = {"CPTensor.to_numpy": V.Inv(acc=lambda k: V.rows_reversed(Q(o.d - 1 - k)))}
    e.eq("dense array of the transpose: that of x with its modes reversed", y.to_numpy(), V.flip(V.rows_summed(Q(0))))


@anyorder("C25", "size of a tucker tensor", ["TuckerTensor.size"])
def _(e, V):
    o = V.Order(e, lo=0, small=False)
    K = V.Tucker(e, o)
    x = K.tensor(e)
    e.ieq("the entries of the core and the factors", x.size, V.mk(V.prod_fn(K.rb)[0](V.z3.IntVal(0), o.d)) + total(V, o.d, lambda k: K.q(k) * o.n(k)))


def _scaled_other(op, c0, kind):
    def f(e, V):
        o = V.Order(e, lo=0, small=False)
        V.cx.decide(o.d == 1)
        c = e.scalar("c") if c0 is None else c0
        if kind == "cp":
            C, r, x = cp_input(e, V, o)
            P = V.cp_prefix(o, C, r)
            D = P.dense()
            inv = V.Inv(acc=lambda k: P(k + 1) * c)
        elif kind == "tucker":
            K = V.Tucker(e, o)
            x, D = K.tensor(e), K.W(o.d, True)
            inv = V.Inv(acc=lambda k: (K.W(0) if V.cx.decide(k == 0) else K.W(k)) * c)
        else:
            D = V.opaque_dense(o, "X")
            x, inv = e.tensor.DenseTensor(D), None
        fr = e.frame(x)
        y = op(x, c)
        e.frame_ok("operand unchanged", fr)
        e.isa("the format is kept", y, type(x))
        e.eng.loops = {type(x).__name__ + ".to_numpy": inv}
        e.eq("dense values", y.to_numpy(), D * c)
    return f


for kind in ("cp", "tucker", "dense"):
    for nm, op, c0 in (("times scalar", lambda x, c: x * c, None), ("scalar times", lambda x, c: c * x, None), ("negated", lambda x, c: -x, -1.0)):
        anyorder("C03", f"{kind} {nm}", [{"cp": "CPTensor", "tucker": "TuckerTensor", "dense": "DenseTensor"}[kind] + ".__mul__"])(_scaled_other(op, c0, kind))


@anyorder("C02", "dense.T", ["DenseTensor.T"])
def _(e, V):
    o = V.Order(e, lo=0, small=False)
    D = V.opaque_dense(o, "X")
    x = e.tensor.DenseTensor(D)
    fr = e.frame(x)
    y = x.T
    e.frame_ok("operand unchanged", fr)
    V.ints(e, "shape reversed", y.shape, lambda k: o.n(o.d - 1 - k), o.d)
    e.eq("modes reversed", y.to_numpy(), V.flip(D))


# ------------------------------------------------------------------ C14 arithmetic of sketches
def container(e, V, o, name="", ranks=None):
    """a sketch: cores Psi(k)[l(k), n(k), r(k+1)], matrices Omega(k)[l(k), r(k)]"""
    l, r = ranks or (o.rank("l" + name), o.rank("r" + name))
    P = V.Arrays("Psi" + name, lambda k: (l(k), ("mode", o.base, k), r(k + 1)), o.d)
    O = V.Arrays("Om" + name, lambda k: (l(k), r(k)), o.d, lo=1)
    d1 = V.S(o.d - 1)
    psi = V.mkseq([("e", P(0)), V.Gen(V.z3.IntVal(1), d1, P), ("e", P(d1))], "list")
    return P, O, e.container.SketchContainer(psi, O.list()), (l, r)


def same_container(e, V, o, c, psi, om, l, r, swap=False):
    V.each(e, "Psi cores", c.Psi_cores, psi, o.d, fork=True)
    V.each(e, "Omega matrices", c.Omega_mats, lambda k: om(k + 1), V.S(o.d - 1), fork=True)
    V.ints(e, "shape", c.shape, lambda k: o.n(V.S(o.d - 1 - k)) if swap else o.n(k), o.d)
    V.ints(e, "left ranks", c.left_rank, lambda k: l(k + 1), V.S(o.d - 1))
    V.ints(e, "right ranks", c.right_rank, lambda k: r(k + 1), V.S(o.d - 1))


def _container_op(op, want, two):
    def f(e, V):
        o = V.Order(e)
        P, O, x, lr = container(e, V, o)
        fr = [e.frame(x)]
        if two:
            P2, O2, y, _ = container(e, V, o, "y", lr)
            fr.append(e.frame(y))
            z = op(x, y)
            same = (lambda k: want(P(k), P2(k))), (lambda k: want(O(k), O2(k)))
        else:
            c = e.scalar("c")
            z = op(x, c)
            same = (lambda k: want(P(k), c)), (lambda k: want(O(k), c))
        for q in fr:
            e.frame_ok("operands unchanged", q)
        e.isa("a sketch", z, e.container.SketchContainer)
        same_container(e, V, o, z, *same, *lr)
    return f


for nm, op, want, two in (("plus", lambda x, y: x + y, lambda a, b: a + b, True), ("minus", lambda x, y: x - y, lambda a, b: a - b, True),
                          ("times scalar", lambda x, c: x * c, lambda a, c: a * c, False), ("divided by scalar", lambda x, c: x / c, lambda a, c: a / c, False),
                          ("negated", lambda x, c: -x, lambda a, c: -a, False)):
    anyorder("C14", f"sketch {nm}", ["SketchContainer.__add__", "SketchContainer.__mul__", "SketchContainer.__init__"])(_container_op(op, want, two))


@anyorder("C14", "zero sketch", ["SketchContainer.zero", "SketchContainer.__add__"])
def _(e, V):
    o = V.Order(e)
    P, O, x, (l, r) = container(e, V, o)
    z = e.container.SketchContainer.zero(o.shape, l.seq(), r.seq())
    same_container(e, V, o, z + x, P, lambda k: O(k), l, r)


@anyorder("C02", "transpose of a sketch", ["SketchContainer.T"])
def _(e, V):
    o = V.Order(e)
    P, O, x, (l, r) = container(e, V, o)
    fr = e.frame(x)
    y = x.T
    e.frame_ok("operand unchanged", fr)
    back = lambda k: V.S(o.d - 1 - k)
    same_container(e, V, o, y, lambda k: V.swapped(P(back(k))), lambda k: O(V.S(o.d - k)).transpose((1, 0)), lambda k: r(V.S(o.d - k)), lambda k: l(V.S(o.d - k)), swap=True)


# ------------------------------------------------------------------ C13 sketches of tensors of any order
class Case:
    def sweep(self, K, D, full):
        return K.Sweep(D, full)

    def cut(self, D, a, k):
        return D.cut(a, k)

    def item(self, a):
        """what the sketching method of the DRM yields for the contraction a"""
        return a

    def contracts(self, K, e, L, R, code):
        K.contracts(e, self.method, self.sweep(K, L, self.left(L)), self.sweep(K, R, self.right(R)), psi=code)
        if isinstance(self, TTCase):
            e.eng.loops[("TensorTrain.partial_dense", 0)] = K.PartialDense(self.x, self.P, self.Q, self.o)

    def code(self, L, R, k):
        """core k of the sketch from the contractions of the tensor with the DRMs"""
        V = self.V
        first, last = V.cx.decide(k == 0), V.cx.decide(k == self.o.d - 1)
        return self.psi(k, None if first else self.cut(L, self.left(L)(k), k), None if last else self.cut(R, self.right(R)(V.S(k + 1)), V.S(k + 1)))

    def psi_def(self, L, R, k):
        V = self.V
        first, last = V.cx.decide(k == 0), V.cx.decide(k == self.o.d - 1)
        t = self.split3(k)
        t = t if last else V.rows_last(t, R.mat(V.S(k + 1)))
        return t if first else V.cols_first(L.mat(k), t)

    def om_def(self, L, R, k):
        return self.V.cols_first(L.mat(k), self.V.rows_last(self.split(k), R.mat(k)))


class TTCase(Case):
    method = "sketch_tt"

    def __init__(self, e, V, o, tag=""):
        self.V, self.o = V, o
        self.X, self.x = tt_input(e, V, o, "X" + tag, "q" + tag)
        self.fam = self.X.fam
        self.P, self.Q = V.prefix(o, self.X, "PX" + tag), V.suffix(o, self.X, "QX" + tag)
        V.lemma_split(e, o, self.X, self.P, self.Q)

    def left(self, L):
        return lambda k: self.V.gram(self.P(k), L.M(k))

    def right(self, R):
        return lambda k: self.V.rows_dot(self.Q(k), R.M(k))

    def psi(self, k, lc, rc):
        """lc, rc: contractions with the DRMs, None at the ends"""
        V = self.V
        c = self.X.core(k)
        c = c if rc is None else V.link(c, rc)
        return c if lc is None else V.link(lc.transpose((1, 0)), c)

    def split(self, k):
        """the dense array as a matrix with the modes below k as rows"""
        return self.V.link(self.P(k), self.Q(k))

    def split3(self, k):
        """[modes below k | mode k | modes above k], without the missing ones at the ends"""
        V, o = self.V, self.o
        c = self.X.core(k)
        c = c if V.cx.int_eq(k, o.d - 1) else V.link(c, self.Q(V.S(k + 1)))
        return c if V.cx.int_eq(k, 0) else V.link(self.P(k), c)


class CPCase(Case):
    method = "sketch_cp"

    def __init__(self, e, V, o, tag=""):
        self.V, self.o = V, o
        self.C, self.r, self.x = cp_input(e, V, o, "C" + tag, "r" + tag)
        self.fam = self.C.fam
        self.P, self.Q = V.cp_prefix(o, self.C, self.r), V.cp_suffix(o, self.C, self.r)

    def left(self, L):
        return lambda k: self.V.gram(self.P(k), L.M(k))

    def right(self, R):
        return lambda k: self.V.gram(self.Q(k), self.V.turned(R.M(k)))

    def psi(self, k, lc, rc):
        np = self.e.np
        c = self.C(k)
        if lc is None:
            return np.einsum("ia,ay->iy", c, rc)[None]
        if rc is None:
            return np.einsum("ax,ia->xi", lc, c)[:, :, None]
        return np.einsum("ax,ia,ay->xiy", lc, c, rc)

    def split(self, k):
        return self.V.over_last(self.P(k), self.Q(k))

    def split3(self, k):
        V, o = self.V, self.o
        c = self.C(k)
        if V.cx.int_eq(k, o.d - 1):
            return V.over_last(self.P(k), c)[..., None]
        if V.cx.int_eq(k, 0):
            return V.over_last(c, self.Q(V.S(k + 1)))[None]
        return V.over_last(V.times_last(self.P(k), c), self.Q(V.S(k + 1)))


class DenseCase(Case):
    method = "sketch_dense"

    def __init__(self, e, V, o):
        self.V, self.o = V, o
        self.D = V.opaque_dense(o, "X")
        self.x = e.tensor.DenseTensor(self.D)

    def left(self, L):
        return getattr(L, "mat", L.M)

    right = left

    def item(self, a):
        """the matrix of the DRM, columns first"""
        a = self.V.turned(a)
        return self.V.A.Arr([x.vs if isinstance(x, self.V.A.Star) else x for x in a.axes], a.body)

    def sweep(self, K, D, full):
        return K.MatsSweep(D) if isinstance(D, K.MatsDRM) else K.DenseSweep(D)

    def cut(self, D, a, k):
        return a

    def split(self, k):
        return self.V.cut_modes(self.o, self.D, [V_block(self.V, self.o, 0, k), V_block(self.V, self.o, k, self.o.d)])

    def split3(self, k):
        V, o = self.V, self.o
        parts = [V_block(V, o, 0, k), o.mode(k), V_block(V, o, V.S(k + 1), o.d)]
        if V.cx.int_eq(k, 0):
            parts[0] = ()
        if V.cx.int_eq(k, o.d - 1):
            parts[2] = ()
        return V.cut_modes(o, self.D, parts)

    def psi(self, k, lc, rc):
        V = self.V
        t = self.split3(k)
        t = t if rc is None else V.rows_last(t, rc)
        return t if lc is None else V.cols_first(lc, t)


class TuckerCase(Case):
    method = "sketch_tucker"

    def __init__(self, e, V, o):
        self.V, self.o = V, o
        self.K = V.Tucker(e, o)
        self.K.lemma(e)
        self.x = self.K.tensor(e)

    def left(self, L):
        """[core modes below k | column]"""
        V, K = self.V, self.K

        def full(k):
            m = L.M(k).fresh()
            A_, I = V.blockvars(K.rb, 0, k), m.axes[0].vs
            return V.A.Arr([V.A.Star(A_), m.axes[1]], V.T.sum_over(V.T.mul(K.P(k, V.pcs(A_), V.pcs(I)), m.body), I)).fresh()
        return full

    def right(self, R):
        """[core modes from k | column]"""
        V, K = self.V, self.K

        def full(k):
            m = R.M(k).fresh()
            A_, I = V.blockvars(K.rb, k, self.o.d), m.axes[1].vs
            return V.A.Arr([V.A.Star(A_), m.axes[0]], V.T.sum_over(V.T.mul(K.Q(k, V.pcs(A_), V.pcs(I)), m.body), I)).fresh()
        return full

    def sweep(self, K, D, full):
        return K.CoreSweep(D, self.rows(D, full))

    def rows(self, D, full):
        """the rows in the order of the sweep"""
        V = self.V

        def f(k):
            a = full(k) if getattr(D, "side", "left") == "left" else V.rows_reversed(full(k))
            return V.A.Arr([x.vs if isinstance(x, V.A.Star) else x for x in a.axes], a.body)
        return f

    def item(self, a):
        return self.V.A.Arr([x.vs if isinstance(x, self.V.A.Star) else x for x in a.axes], a.body)

    def psi(self, k, lc, rc):
        V, o, K = self.V, self.o, self.K
        parts = [V.A.Star(V.blockvars(K.rb, 0, k)), V.new_axis(K.q(k), mode=(K.rb, V.S(k))), V.A.Star(V.blockvars(K.rb, V.S(k + 1), o.d))]
        if V.cx.int_eq(k, 0):
            parts[0] = ()
        if V.cx.int_eq(k, o.d - 1):
            parts[2] = ()
        t = V.cut_modes(o, K.core, parts)
        t = t if rc is None else V.rows_last(t, V.turned(rc))
        t = t if lc is None else V.cols_first(lc, t)
        return self.e.np.einsum("xay,ai->xiy", t, K.U(k))

    def split(self, k):
        return self.dense(k, k)

    def split3(self, k):
        return self.dense(k, self.V.S(k + 1))

    def dense(self, k, m):
        """[modes below k | mode k, if m = k + 1 | modes from m], without missing ones at the ends"""
        V, o, K = self.V, self.o, self.K
        b = lambda base, lo, hi: V.blockvars(base, lo, hi)
        A0, A2, I0, I2 = b(K.rb, 0, k), b(K.rb, m, o.d), b(o.base, 0, k), b(o.base, m, o.d)
        x = V.T.mul(K.P(k, V.pcs(A0), V.pcs(I0)), K.Q(m, V.pcs(A2), V.pcs(I2)))
        A1, ax = (), [V.A.Star(I0) if I0 else (), V.A.Star(I2) if I2 else ()]
        if k is not m:
            A1, I1 = V.new_axis(K.q(k), mode=(K.rb, V.S(k))), o.mode(k)
            x = V.T.mul(x, K.U(k).at([V.pcs(A1), V.pcs(I1)]))
            ax.insert(1, I1)
        c = V.A.Arr([A0 + A1 + A2], K.core.at([V.pcs(A0 + A1 + A2)])).body
        return V.A.Arr(ax, V.T.sum_over(V.T.mul(c, x), A0 + A1 + A2)).fresh()


class SparseCase(Case):
    method = "sketch_sparse"

    def __init__(self, e, V, o):
        self.V, self.o = V, o
        self.J, self.v, self.x = sparse_input(e, V, o, "X")

    def left(self, L):
        return lambda k: self.V.gram(self.J.P(k), L.M(k))

    def right(self, R):
        return lambda k: self.V.gram(self.J.Q(k), self.V.turned(R.M(k)))

    def sweep(self, K, D, full):
        return K.ColumnSweep(D, full)

    def item(self, a):
        return a.transpose((1, 0))

    def psi(self, k, lc, rc):
        np = self.e.np
        c = self.J.delta(k)
        if lc is None:
            return np.einsum("q,iq,qy->iy", self.v, c, rc)[None]
        if rc is None:
            return np.einsum("q,qx,iq->xi", self.v, lc, c)[:, :, None]
        return np.einsum("q,qx,iq,qy->xiy", self.v, lc, c, rc)

    def split(self, k):
        return self.V.over_last(self.V.times_last(self.J.P(k), self.v), self.J.Q(k))

    def split3(self, k):
        V, o, J = self.V, self.o, self.J
        c = J.delta(k)
        if V.cx.int_eq(k, o.d - 1):
            return V.over_last(V.times_last(J.P(k), self.v), c)[..., None]
        c = V.times_last(c, self.v)
        if V.cx.int_eq(k, 0):
            return V.over_last(c, J.Q(V.S(k + 1)))[None]
        return V.over_last(V.times_last(J.P(k), c), J.Q(V.S(k + 1)))


class SumCase(Case):
    """sum of tensors of different formats"""
    kinds = ()

    def __init__(self, e, V, o):
        self.V, self.o = V, o
        self.cases = [k(e, V, o, *("2" for _ in range(k in self.kinds[:i]))) for i, k in enumerate(self.kinds)]
        for c in self.cases:
            c.e = e
            if hasattr(c, "J"):
                self.J = c.J
        self.x = e.tensor.TensorSum([c.x for c in self.cases])

    def contracts(self, K, e, L, R, code):
        eager, loops = {"sum_sketch"}, {}
        for c in self.cases:
            c.contracts(K, e, L, R, code)
            eager |= e.eng.eager
            for q, spec in e.eng.loops.items():
                loops[q] = K.PerTensor(loops.get(q), c, spec) if sum(isinstance(c, k) for k in self.kinds) > 1 and isinstance(spec, K.PerDRM) else spec
        e.eng.eager, e.eng.loops = eager, loops
        e.eng.loops[("sum_sketch", 1)] = K.Interleaved(e)

    def left(self, L):
        fs = [c.left(L) for c in self.cases]
        return lambda k: tuple(f(k) for f in fs)

    def right(self, R):
        fs = [c.right(R) for c in self.cases]
        return lambda k: tuple(f(k) for f in fs)

    def item(self, a):
        return tuple(c.item(x) for c, x in zip(self.cases, a))

    def psi(self, k, lc, rc):
        lc, rc = (x or (None,) * len(self.cases) for x in (lc, rc))
        return self.total([c.psi(k, *x) for c, *x in zip(self.cases, lc, rc)])

    def split3(self, k):
        return self.total([c.split3(k) for c in self.cases])

    def code(self, L, R, k):
        return self.total([c.code(L, R, k) for c in self.cases])

    def psi_def(self, L, R, k):
        return self.total([c.psi_def(L, R, k) for c in self.cases])

    def om_def(self, L, R, k):
        return self.total([c.om_def(L, R, k) for c in self.cases])

    @staticmethod
    def total(xs):
        a = xs[0]
        for b in xs[1:]:
            a = a + b
        return a


def sum_of(*kinds):
    return type("SumCase", (SumCase,), {"kinds": kinds})


def V_block(V, o, lo, hi):
    return V.A.Star(o.block(lo, hi))


def sketch_case(e, V, case, larger=None, sliced=False, drm="TrainDRM"):
    """a tensor of the kind, tensor-train DRMs, and the cores and matrices of its sketch by definition; contracts of the sketching loops"""
    from . import anysk as K
    o = V.Order(e)
    l, r = o.rank("l"), o.rank("r")
    if larger is not None:
        ordered(V, o, l, r, larger)
    c = case(e, V, o)
    c.e = e
    L, R = getattr(K, drm)(e, o, "left", "L", sliced), getattr(K, drm)(e, o, "right", "R", sliced)
    L.coords = R.coords = getattr(c, "J", None)
    c.contracts(K, e, L, R, lambda k: c.code(L, R, k))
    psi, om = (lambda k: c.psi_def(L, R, k)), (lambda k: c.om_def(L, R, k))
    return o, L, R, c, psi, om


def ordered(V, o, l, r, larger):
    """every left rank is larger / smaller than the right rank of its bond"""
    V.cx.opaque.setdefault("facts", {})[l.f.name()] = lambda a, y: V.z3.Implies(V.z3.And(a >= 1, a <= o.d - 1), y > r.f(a) if larger else y < r.f(a))


def _sketch_any(case, sliced, drm="TrainDRM"):
    def f(e, V):
        o, L, R, c, psi, om = sketch_case(e, V, case, sliced=sliced, drm=drm)
        fr = e.frame(c.x, L.drm, R.drm)
        s = e.dispatch.general_sketch(c.x, L.drm, R.drm, e.dispatch.SketchMethod.streaming)
        e.frame_ok("tensor and DRMs unchanged", fr)
        same_container(e, V, o, s, psi, om, L.rank, R.rank)
    return f


for case, fns in ((TTCase, "tt"), (CPCase, "cp"), (SparseCase, "sparse")):
    for sl in (False, True):
        anyorder("C13", f"{fns} with {'slices of ' if sl else ''}TensorTrainDRM", ["general_sketch", "TensorTrainDRM.sketch_" + fns, "handle_transpose", "sketch_omega_" + fns, "sketch_psi_" + fns])(_sketch_any(case, sl))


for drm, nm in (("LazyDRM", "SparseGaussianDRM"), ("SignDRM", "SparseSignDRM"), ("MatsDRM", "DenseGaussianDRM")):
    for sl in (False, True):
        anyorder("C13", f"sparse with {'slices of ' if sl else ''}{nm}", ["general_sketch", nm + ".sketch_sparse", "handle_transpose", "sketch_omega_sparse", "sketch_psi_sparse"])(_sketch_any(SparseCase, sl, drm))


for sl in (False, True):
    anyorder("C13", f"tt with {'slices of ' if sl else ''}DenseGaussianDRM", ["general_sketch", "DenseGaussianDRM.sketch_tt", "TensorTrain.partial_dense", "handle_transpose", "sketch_omega_tt", "sketch_psi_tt"])(_sketch_any(TTCase, sl, "MatsDRM"))


for drm, nm in (("TrainDRM", "TensorTrainDRM"), ("MatsDRM", "DenseGaussianDRM")):
    for sl in (False, True):
        anyorder("C13", f"dense with {'slices of ' if sl else ''}{nm}", ["general_sketch", nm + ".sketch_dense", "handle_transpose", "matricize", "reverse_row_modes", "sketch_omega_dense", "sketch_psi_dense"])(_sketch_any(DenseCase, sl, drm))


for sl in (False, True):
    anyorder("C13", f"tucker with {'slices of ' if sl else ''}TensorTrainDRM", ["general_sketch", "TensorTrainDRM.sketch_tucker", "handle_transpose", "matricize", "reverse_row_modes", "sketch_omega_tucker", "sketch_psi_tucker"])(_sketch_any(TuckerCase, sl))


SUMS = [((TuckerCase, CPCase), "tucker + cp"), ((DenseCase, TTCase), "dense + tt"), ((TTCase, TTCase), "tt + tt"), ((CPCase, CPCase), "cp + cp"), ((TTCase, CPCase), "tt + cp"), ((SparseCase, TTCase), "sparse + tt"), ((CPCase, SparseCase), "cp + sparse"), ((TTCase, CPCase, SparseCase), "tt + cp + sparse")]
FNSUM = ["general_sketch", "sum_sketch", "get_sketch_method", "sketch_omega_sum", "sketch_psi_sum", "handle_transpose"]


def sum_fns(kinds, drm="TensorTrainDRM"):
    return FNSUM + [f"{drm}.{k.method}" for k in kinds]


for kinds, nm in SUMS:
    for sl in (False, True):
        anyorder("C13", f"sum {nm} with {'slices of ' if sl else ''}TensorTrainDRM", sum_fns(kinds))(_sketch_any(sum_of(*kinds), sl))


for kinds, nm in (((TTCase, SparseCase), "tt + sparse"),):
    for sl in (False, True):
        anyorder("C13", f"sum {nm} with {'slices of ' if sl else ''}DenseGaussianDRM", sum_fns(kinds, "DenseGaussianDRM"))(_sketch_any(sum_of(*kinds), sl, "MatsDRM"))


# ------------------------------------------------------------------ C02 transposed DRMs and sketches
def turned_drm(e, V, o, Q, D, pick=None):
    """Q has the ranks, columns and matrices of D, for tensors with the modes in the opposite order, on the other side"""
    d, n = D.drm, V.S(o.d - 1)
    e.isa("type", Q, type(d))
    e.true("other side", Q.transpose != d.transpose)
    V.ints(e, "shape reversed", Q.shape, lambda k: o.n(V.S(o.d - 1 - k)), o.d)
    e.ieq("seed", Q.seed, d.seed)
    for f in ("true_rank", "rank_min", "rank_max", "rank"):
        s = V.seq_of(getattr(d, f))
        V.ints(e, f, getattr(Q, f), lambda j: V.Z(s.at(j)), n)
    for f in ("cores", "sketching_mats"):
        if hasattr(d, f):
            c = V.seq_of(getattr(d, f))
            V.each(e, f, getattr(Q, f), lambda j: c.at(j), n, fork=True)
    if D.__dict__.get("nnz") is not None:
        s = V.seq_of(d.nnz)
        V.ints(e, "signs per row", Q.nnz, lambda j: V.Z(s.at(j)), n)


def _turned_any(drm, side, sliced, case):
    def f(e, V):
        from . import anysk as K
        import copy
        o = V.Order(e)
        c = case(e, V, o)
        c.e = e
        D = getattr(K, drm)(e, o, side, "L", sliced)
        D.coords = getattr(c, "J", None)
        fr = e.frame(c.x, D.drm)
        Q = D.drm.T
        if V.cx.choose(2, ("turned",)) == 0:
            turned_drm(e, V, o, Q, D)
            e.frame_ok("DRM unchanged", fr)
            return
        D2 = copy.copy(D)
        D2.drm = Q
        D.full = D2.full = (c.left if side == "left" else c.right)(D)
        full = (c.left if side == "left" else c.right)(D)
        c.contracts(K, e, D2, D2, None)
        e.eng.loops[type(Q).__name__ + "." + c.method] = K.PerDRM(c.sweep(K, D2, full))
        at = lambda j: V.S(o.d - 1 - j)
        V.each(e, "its contractions with the transposed tensor", getattr(Q, c.method)(c.x.T), lambda j: c.item(D.cut(full(at(j)), at(j))), V.S(o.d - 1), fork=True)
    return f


for drm, dn, case, nm in (("TrainDRM", "TensorTrainDRM", TTCase, "tt"), ("TrainDRM", "TensorTrainDRM", CPCase, "cp"), ("TrainDRM", "TensorTrainDRM", SparseCase, "sparse"), ("LazyDRM", "SparseGaussianDRM", SparseCase, "sparse"),
                          ("SignDRM", "SparseSignDRM", SparseCase, "sparse"), ("MatsDRM", "DenseGaussianDRM", SparseCase, "sparse")):
    for side in ("left", "right"):
        for sl in (False, True):
            anyorder("C02", f"transpose of {'a slice of ' if sl else ''}a {side} {dn}, {nm}", ["DRM.T", "handle_transpose", f"{dn}.sketch_{nm}"])(_turned_any(drm, side, sl, case))


def _turned_sketch(drm):
    def f(e, V):
        from . import anysk as K
        o = V.Order(e)
        L, R = getattr(K, drm)(e, o, "left", "GL"), getattr(K, drm)(e, o, "right", "GR")
        P, O, w, _ = container(e, V, o, "S", ranks=(L.t, R.t))
        S = e.sketch.SketchedTensorTrain(w, L.drm, R.drm)
        fr = e.frame(S)
        T = S.T
        e.frame_ok("sketch unchanged", fr)
        e.isa("a sketched tensor train", T, e.sketch.SketchedTensorTrain)
        which = V.cx.choose(3, ("part",))
        if which == 0:
            turned_drm(e, V, o, T.left_drm, R)
        elif which == 1:
            turned_drm(e, V, o, T.right_drm, L)
        else:
            back = lambda k: V.S(o.d - 1 - k)
            V.ints(e, "shape of the sketch", T.shape, lambda k: o.n(back(k)), o.d)
            same_container(e, V, o, T.sketch_, lambda k: V.swapped(P(back(k))), lambda k: O(V.S(o.d - k)).transpose((1, 0)), lambda k: R.t(V.S(o.d - k)), lambda k: L.t(V.S(o.d - k)), swap=True)
    return f


for drm, dn in (("TrainDRM", "TensorTrainDRM"), ("LazyDRM", "SparseGaussianDRM"), ("SignDRM", "SparseSignDRM"), ("MatsDRM", "DenseGaussianDRM")):
    anyorder("C02", f"transpose of a sketched tensor train with {dn}", ["SketchedTensorTrain.T", "SketchContainer.T", "DRM.T"])(_turned_sketch(drm))


# ------------------------------------------------------------------ C15 reconstruction from a sketch of any order
FN15 = ["assemble_sketched_tt", "right_mul_pinv", "left_mul_pinv"]


def nystrom(V, o, P, Oi, direction):
    """the cores of the generalized Nystrom reconstruction"""
    if direction == "right":
        return lambda k: P(k) if V.cx.decide(k == o.d - 1) else V.link(P(k), Oi(V.S(k + 1)))
    return lambda k: P(k) if V.cx.decide(k == 0) else V.link(Oi(k), P(k))


def _assemble(direction):
    def f(e, V):
        o = V.Order(e)
        P, O, x, (l, r) = container(e, V, o)
        Oi = V.pseudo_inverses(O, O.fam, lambda k: (r(k), l(k)), "Oi")
        fr = e.frame(x)
        C = e.sketch.assemble_sketched_tt(x, direction)
        e.frame_ok("the sketch is unchanged", fr)
        V.each(e, f"cores, direction {direction}", C, nystrom(V, o, P, Oi, direction), o.d, fork=True)
    return f


for di in ("left", "right"):
    anyorder("C15", f"assemble {di}", FN15)(_assemble(di))


def _assemble_auto(larger):
    """every left rank is larger / some left rank is not"""
    def f(e, V):
        o = V.Order(e)
        P, O, x, (l, r) = container(e, V, o)
        if larger:
            V.cx.opaque.setdefault("facts", {})[l.f.name()] = lambda a, y: V.z3.Implies(V.z3.And(a >= 1, a <= o.d - 1), y > r.f(a))
        else:
            k0 = V.generic(1, o.d)
            e.assume(V.mk(l(k0)) <= V.mk(r(k0)))
        Oi = V.pseudo_inverses(O, O.fam, lambda k: (r(k), l(k)), "Oi")
        C = e.sketch.assemble_sketched_tt(x)
        V.each(e, "cores", C, nystrom(V, o, P, Oi, "left" if larger else "right"), o.d, fork=True)
    return f


for larger in (True, False):
    anyorder("C15", f"assemble, automatic direction, {'all left ranks larger' if larger else 'some left rank not larger'}", FN15)(_assemble_auto(larger))


def _sketched(larger):
    """the tensor train of a sketch"""
    def f(e, V):
        from . import anysk as K
        o = V.Order(e)
        l, r = o.rank("l"), o.rank("r")
        if larger:
            V.cx.opaque.setdefault("facts", {})[l.f.name()] = lambda a, y: V.z3.Implies(V.z3.And(a >= 1, a <= o.d - 1), y > r.f(a))
        else:
            V.cx.opaque.setdefault("facts", {})[l.f.name()] = lambda a, y: V.z3.Implies(V.z3.And(a >= 1, a <= o.d - 1), y <= r.f(a))
        L, R = K.TrainDRM(e, o, "left", "GL"), K.TrainDRM(e, o, "right", "GR")
        P, O, x, _ = container(e, V, o, ranks=(l, r))
        Oi = V.pseudo_inverses(O, O.fam, lambda k: (r(k), l(k)), "Oi")
        s = e.sketch.SketchedTensorTrain(x, L.drm, R.drm)
        fr = e.frame(s)
        C = V.Built(o, r if larger else l, nystrom(V, o, P, Oi, "left" if larger else "right"))
        W = C.prefix("PC")
        T = s.to_tt()
        e.isa("a tensor train", T, e.tensor.TensorTrain)
        e.frame_ok("the sketch is unchanged", fr)
        V.each(e, "cores of to_tt", T.cores, C.core, o.d, fork=True)
        V.ints(e, "ranks are the smaller ones", T.rank, lambda k: (r if larger else l)(k + 1), o.d - 1)
        V.ints(e, "shape", T.shape, lambda k: o.n(k), o.d)
        e.eng.loops = {"TensorTrain.to_numpy": V.Inv(acc=lambda k: W(k + 1))}
        e.eq("to_numpy", s.to_numpy(), W.dense())
    return f


for larger in (True, False):
    anyorder("C15", f"to_tt, to_numpy, {"left" if not larger else "right"} ranks smaller", FN15 + ["SketchedTensorTrain.C_cores", "SketchedTensorTrain.to_tt", "SketchedTensorTrain.to_numpy"])(_sketched(larger))


def _recovery(direction):
    """Omega_k = F_k G_k and Psi_k = F_k X_k G_(k+1) with F of full column rank, G of full row rank: what C13 gives for a tensor train
    with cores X whenever the sketch ranks are at least its ranks, almost surely"""
    def f(e, V):
        o = V.Order(e)
        l, r, q = o.rank("l"), o.rank("r"), o.rank("q")
        X = V.Cores(o, "X", q)
        F = V.FullRank(o, l, q, r)
        PX = V.prefix(o, X, "PX")

        def psi(k):
            a = X.core(k)
            a = a if V.cx.decide(k == 0) else V.link(F.P(k), a)
            return a if V.cx.decide(k == o.d - 1) else V.link(a, F.Q(V.S(k + 1)))
        d1 = V.S(o.d - 1)
        x = e.container.SketchContainer(V.mkseq([("e", psi(V.S(0))), V.Gen(V.z3.IntVal(1), d1, psi), ("e", psi(d1))], "list"), F.list())
        C = e.sketch.assemble_sketched_tt(x, direction)

        def acc(k):
            if V.cx.decide(k == d1):
                return PX(o.d)
            k1 = V.S(k + 1)
            return V.link(PX(k1), F.Pi(k1) if direction == "right" else F.Q(k1))
        e.eng.loops = {"TensorTrain.to_numpy": V.Inv(acc=acc)}
        e.eq("the tensor is recovered", e.tensor.TensorTrain(C).to_numpy(), PX.dense())
    return f


for di in ("left", "right"):
    anyorder("C15", f"exact recovery {di}", FN15)(_recovery(di))


# ------------------------------------------------------------------ C14 streaming updates of a sketch of any order
def _stream_given(case, larger, drm="TrainDRM"):
    def f(e, V):
        o, L, R, c, psi, om = sketch_case(e, V, case, larger, drm=drm)
        l, r = L.t, R.t
        fr = e.frame(c.x, L.drm, R.drm)
        s = e.sketch.stream_sketch(c.x, l.seq(), r.seq(), left_drm=L.drm, right_drm=R.drm)
        e.frame_ok("tensor and DRMs unchanged", fr)
        e.isa("a sketched tensor train", s, e.sketch.SketchedTensorTrain)
        e.true("the given left DRM", s.left_drm is L.drm)
        e.true("the given right DRM", s.right_drm is R.drm)
        same_container(e, V, o, s.sketch_, psi, om, l, r)
    return f


def _stream_add(case, larger, drm="TrainDRM"):
    def f(e, V):
        o, L, R, c, psi, om = sketch_case(e, V, case, larger, drm=drm)
        l, r = L.t, R.t
        P, O, w, _ = container(e, V, o, "S", ranks=(l, r))
        S = e.sketch.SketchedTensorTrain(w, L.drm, R.drm)
        fr = e.frame(S, c.x, L.drm, R.drm)
        Z = S + c.x
        e.frame_ok("sketch, tensor and DRMs unchanged", fr)
        e.isa("a sketched tensor train", Z, e.sketch.SketchedTensorTrain)
        e.true("the same left DRM", Z.left_drm is L.drm)
        e.true("the same right DRM", Z.right_drm is R.drm)
        same_container(e, V, o, Z.sketch_, lambda k: P(k) + psi(k), lambda k: O(k) + om(k), l, r)
    return f


for case, nm in ((TTCase, "tt"), (CPCase, "cp"), (SparseCase, "sparse"), (DenseCase, "dense"), (TuckerCase, "tucker")):
    for larger in (True, False):
        w = "left" if larger else "right"
        fns = ["stream_sketch", "general_sketch", "TensorTrainDRM.sketch_" + nm, "SketchedTensorTrain.__post_init__"]
        anyorder("C13", f"stream_sketch of a {nm} with given DRMs, {w} ranks larger", fns)(_stream_given(case, larger))
        anyorder("C14", f"sketch plus {nm}, {w} ranks larger", fns + ["SketchedTensorTrain.__add__", "SketchContainer.__add__"])(_stream_add(case, larger))


for case, nm, drm, dn in ((SparseCase, "sparse", "LazyDRM", "SparseGaussianDRM"), (SparseCase, "sparse", "SignDRM", "SparseSignDRM"),
                          (SparseCase, "sparse", "MatsDRM", "DenseGaussianDRM"), (TTCase, "tt", "MatsDRM", "DenseGaussianDRM"), (DenseCase, "dense", "MatsDRM", "DenseGaussianDRM")):
    fns = ["stream_sketch", "general_sketch", f"{dn}.sketch_{nm}", "SketchedTensorTrain.__add__", "SketchContainer.__add__"]
    anyorder("C14", f"sketch with {dn} plus {nm}", fns)(_stream_add(case, False, drm))


for kinds, nm in SUMS:
    for larger in (True, False):
        fns = ["stream_sketch"] + sum_fns(kinds)
        w = "left" if larger else "right"
        anyorder("C13", f"stream_sketch of a sum {nm} with given DRMs, {w} ranks larger", fns)(_stream_given(sum_of(*kinds), larger))
        anyorder("C14", f"sketch plus sum {nm}, {w} ranks larger", fns + ["SketchedTensorTrain.__add__", "SketchContainer.__add__"])(_stream_add(sum_of(*kinds), larger))


@anyorder("C14", "sketched tensor train times scalar", ["SketchedTensorTrain.__mul__", "SketchContainer.__mul__"])
def _(e, V):
    from . import anysk as K
    o = V.Order(e)
    L, R = K.TrainDRM(e, o, "left", "GL"), K.TrainDRM(e, o, "right", "GR")
    P, O, w, (l, r) = container(e, V, o, "S", ranks=(L.t, R.t))
    S = e.sketch.SketchedTensorTrain(w, L.drm, R.drm)
    c = e.scalar("c")
    fr = e.frame(S)
    Z = S * c
    e.frame_ok("sketch unchanged", fr)
    e.true("the same left DRM", Z.left_drm is L.drm)
    e.true("the same right DRM", Z.right_drm is R.drm)
    same_container(e, V, o, Z.sketch_, lambda k: P(k) * c, lambda k: O(k) * c, l, r)


# ------------------------------------------------------------------ C26 rejected arguments, any order
FN26 = ["stream_sketch", "orthogonal_sketch", "hmt_sketch"]


@anyorder("C26", "inconsistent ranks", FN26[:2])
def _(e, V):
    o = V.Order(e)
    X, x = tt_input(e, V, o)
    l, r = o.rank("l"), o.rank("r")
    k0, k1 = V.generic(1, o.d), V.generic(1, o.d)
    e.assume(V.mk(l(k0)) >= V.mk(r(k0)))
    e.raises("orthogonal sketch, some left rank not smaller", ValueError, lambda: e.sketch.orthogonal_sketch(x, l.seq(), r.seq()))
    e.assume(V.mk(l(k1)) <= V.mk(r(k1)))
    e.raises("streaming sketch, some left rank not smaller and some not larger", ValueError, lambda: e.sketch.stream_sketch(x, l.seq(), r.seq()))


def _other_ranks(side):
    def f(e, V):
        from . import anysk as K
        o = V.Order(e)
        X, x = tt_input(e, V, o)
        l, r = o.rank("l"), o.rank("r")
        w = o.rank("w")
        k0 = V.generic(1, o.d)
        have = l if side == "left" else r
        e.assume(V.mk(w(k0)) != V.mk(have(k0)))
        L, R = K.TrainDRM(e, o, "left", "L"), K.TrainDRM(e, o, "right", "R")
        a, b = (w, r) if side == "left" else (l, w)
        e.raises("streaming sketch", ValueError, lambda: e.sketch.stream_sketch(x, a.seq(), b.seq(), left_drm=L.drm, right_drm=R.drm))
        e.raises("orthogonal sketch", ValueError, lambda: e.sketch.orthogonal_sketch(x, a.seq(), b.seq(), left_drm=L.drm, right_drm=R.drm))
        if side == "right":
            e.raises("HMT sketch", ValueError, lambda: e.sketch.hmt_sketch(x, b.seq(), drm=R.drm))
    return f


for side in ("left", "right"):
    anyorder("C26", f"{side} DRM of other ranks", FN26)(_other_ranks(side))


def _other_shape(case):
    def f(e, V):
        from . import anysk as K
        o, L, R, c, psi, om = sketch_case(e, V, case)
        o2 = V.Order(e, "m", like=o)
        k0 = V.generic(0, o.d)
        e.assume(V.mk(o.n(k0)) != V.mk(o2.n(k0)))
        L2, R2 = K.TrainDRM(e, o2, "left", "L2", rank="l"), K.TrainDRM(e, o2, "right", "R2", rank="r")
        M = e.dispatch.SketchMethod
        for nm, a, b in (("left", L2, R), ("right", L, R2), ("both", L2, R2)):
            e.raises(f"streaming, {nm} DRM of another shape", ValueError, lambda: e.dispatch.general_sketch(c.x, a.drm, b.drm, M.streaming))
            e.raises(f"orthogonal, {nm} DRM of another shape", ValueError, lambda: e.dispatch.general_sketch(c.x, a.drm, b.drm, M.orthogonal))
        e.raises("hmt, DRM of another shape", ValueError, lambda: e.dispatch.general_sketch(c.x, None, R2.drm, M.hmt))
    return f


for case, nm in ((TTCase, "tt"), (CPCase, "cp"), (SparseCase, "sparse"), (DenseCase, "dense"), (TuckerCase, "tucker")):
    anyorder("C26", f"DRM of another shape for {nm}", ["handle_transpose", "general_sketch"])(_other_shape(case))


for kinds, nm in SUMS:
    anyorder("C26", f"DRM of another shape for a sum {nm}", ["handle_transpose", "general_sketch", "sum_sketch"])(_other_shape(sum_of(*kinds)))


# ------------------------------------------------------------------ C16 orthogonal and HMT sketches of any order
def _projection(case, method):
    def f(e, V):
        from . import anysk as K
        o = V.Order(e, small=False)
        l, r = o.rank("l"), o.rank("r")
        q = r if method == "hmt" else l

        def fact(a, y):         # what process_tt_rank makes of any ranks (C11)
            prev = V.z3.If(a == 1, V.z3.IntVal(1), q.f(a - 1))
            return V.z3.Implies(V.z3.And(a >= 1, a <= o.d - 1), V.z3.And(y <= prev * o.n(V.S(a - 1)), *([] if method == "hmt" else [y < r.f(a)])))
        V.cx.opaque.setdefault("facts", {})[q.f.name()] = fact
        c = case(e, V, o)
        c.e = e
        L, R = K.TrainDRM(e, o, "left", "L"), K.TrainDRM(e, o, "right", "R")
        d1 = V.S(o.d - 1)
        sw = K.OrthSketch(e, o, q, lambda: c.psi(d1, full(d1), None))
        PO = V.lemma_left(e, o, sw.cores, until=sw)
        full = c.left(V.Having(PO))
        K.growing_drm(e, sw, q, c.x, lambda k: c.item(full(k)))
        c.contracts(K, e, L, R, None)
        e.eng.loops[("general_sketch", 1)] = sw
        fr = e.frame(c.x, L.drm, R.drm)
        if method == "hmt":
            T, R2 = e.sketch.hmt_sketch(c.x, r.seq(), drm=R.drm, return_drm=True)
        else:
            T, L2, R2 = e.sketch.orthogonal_sketch(c.x, l.seq(), r.seq(), left_drm=L.drm, right_drm=R.drm, return_drm=True)
            e.true("the left DRM is kept", L2 is L.drm)
        e.true("the right DRM is kept", R2 is R.drm)
        e.frame_ok("tensor and DRMs unchanged", fr)
        e.isa("a tensor train", T, e.tensor.TensorTrain)
        V.ints(e, "shape", T.shape, lambda k: o.n(k), o.d)
        V.ints(e, "ranks", T.rank, lambda k: q(k + 1), d1)
        last = V.cols_first(PO(d1), c.split3(d1))
        e.eq("the last core is the tensor contracted with the left cores", T.cores[-1], last)
        Z = V.link(PO(d1), last)
        e.eng.loops = {"TensorTrain.to_numpy": V.Inv(acc=lambda k: PO(k + 1) if not V.cx.decide(k == d1) else V.joined(Z))}
        e.eq("dense array: the projection of the tensor", T.to_numpy(), V.drop1(V.joined(Z)))
        e.seq("the error is orthogonal to the result", V.full_dot(Z, c.split3(d1)), V.full_dot(Z, Z))
    return f


for case, nm in ((TTCase, "tt"), (CPCase, "cp"), (SparseCase, "sparse"), (DenseCase, "dense"), (TuckerCase, "tucker")):
    for m in ("hmt", "orthogonal"):
        anyorder("C16", f"{m}_sketch of a {nm}", ["general_sketch", "orth_step", m + "_sketch", "TensorTrainDRM.sketch_" + nm])(_projection(case, m))


for kinds, nm in SUMS:
    for m in ("hmt", "orthogonal"):
        anyorder("C16", f"{m}_sketch of a sum {nm}", ["orth_step", m + "_sketch"] + sum_fns(kinds))(_projection(sum_of(*kinds), m))


def _growing(case):
    """the running sketch of the orthogonal algorithms contracts the tensor with the cores found so far"""
    def f(e, V):
        from . import anysk as K
        o = V.Order(e)
        q = o.rank("l")
        c = case(e, V, o)
        c.e = e
        W = e.dispatch.OrthogTTDRM(q.seq(), c.x)
        O = V.Cores(o, "O", q)
        D = V.Having(V.prefix(o, O, "PO"))
        D.drm, D.o, D.side = W.drm, o, "left"
        D.cut = lambda a, k: a
        W.drm.cores = V.mkseq([("e", O.core(0)), V.Gen(V.z3.IntVal(1), V.S(o.d - 1), O.core)], "list")
        c.contracts(K, e, D, D, None)
        full = c.left(D)
        V.each(e, "items", W.sketch_method(c.x), lambda k: c.item(full(V.S(k + 1))), V.S(o.d - 1))
    return f


for case, nm in ((TTCase, "tt"), (CPCase, "cp"), (SparseCase, "sparse"), (DenseCase, "dense"), (TuckerCase, "tucker")):
    anyorder("C16", f"running sketch of a {nm} with the left cores", ["OrthogTTDRM.__init__", "TensorTrainDRM.sketch_" + nm, "TensorTrainDRM.__init__"])(_growing(case))


for kinds, nm in SUMS:
    anyorder("C16", f"running sketch of a sum {nm} with the left cores", ["OrthogTTDRM.__init__", "sum_sketch", "TensorTrainDRM.__init__"])(_growing(sum_of(*kinds)))


# ------------------------------------------------------------------ C21 linear maps on tensors of any order
def operator(e, V, o, transposed=False):
    """an operator with cores M(k)[a, i_k, j_k, b], and the product of its cores"""
    o2 = V.Order(e, "m", like=o)
    r = o.rank("p")
    M = V.Arrays("M", lambda k: (r(k), ("mode", o.base, k), ("mode", "m", k), r(k + 1)), o.d)
    x = e.gmres.MPO(V.mkseq([("e", M(0)), V.Gen(V.z3.IntVal(1), V.S(o.d - 1), M), ("e", M(o.d - 1))], "list"))
    return o2, r, M, x, V.mpo_prefix(o, o2, M, r)


@anyorder("C21", "operator applied to a tensor train", ["MPO.__call__", "MPO.__init__"])
def _(e, V):
    o = V.Order(e)
    o2, p, M, m, PM = operator(e, V, o)
    X, x = tt_input(e, V, o)
    PX = V.prefix(o, X, "PX")
    fr = e.frame(m, x)
    y = m(x)
    e.frame_ok("operator and tensor unchanged", fr)
    e.isa("a tensor train", y, e.tensor.TensorTrain)
    V.ints(e, "shape", y.shape, lambda k: o2.n(k), o.d)
    V.ints(e, "ranks are multiplied", y.rank, lambda k: p(k + 1) * X.r(k + 1), o.d - 1)
    e.eng.loops = {"TensorTrain.to_numpy": V.Inv(acc=lambda k: V.applied(PM(k + 1), PX(k + 1)))}
    e.eq("sum over the input modes of the operator's entries times the tensor's", y.to_numpy(), V.drop1(V.applied(PM(o.d), PX(o.d))))


@anyorder("C21", "transposed operator", ["MPO.T", "MPO.__call__"])
def _(e, V):
    o = V.Order(e)
    o2, p, M, m, PM = operator(e, V, o)
    Y = V.Cores(o2, "Y", o2.rank("s"))
    y = e.tensor.TensorTrain(Y.list())
    PY = V.prefix(o2, Y, "PY")
    fr = e.frame(m, y)
    t = m.T
    e.isa("an operator", t, e.gmres.MPO)
    V.ints(e, "in_shape", t.in_shape, lambda k: o2.n(k), o.d)
    V.ints(e, "out_shape", t.out_shape, lambda k: o.n(k), o.d)
    x = t(y)
    e.frame_ok("operator and tensor unchanged", fr)
    V.ints(e, "shape of the result", x.shape, lambda k: o.n(k), o.d)
    turn = lambda k: V.applied(V.first_two(PM(k)), PY(k))
    e.eng.loops = {"TensorTrain.to_numpy": V.Inv(acc=lambda k: turn(k + 1))}
    e.eq("sum over the output modes of the operator's entries times the tensor's", x.to_numpy(), V.drop1(turn(o.d)))


def _multiple(op):
    def f(e, V):
        o = V.Order(e)
        o2, p, M, m, PM = operator(e, V, o)
        X, x = tt_input(e, V, o)
        PX = V.prefix(o, X, "PX")
        c = e.scalar("c")
        fr = e.frame(m, x)
        y = op(m, c)(x)
        e.frame_ok("operator and tensor unchanged", fr)
        e.eng.loops = {"TensorTrain.to_numpy": V.Inv(acc=lambda k: V.applied(PM(k + 1), PX(k + 1)) * c)}
        e.eq("multiple of the result", y.to_numpy(), V.drop1(V.applied(PM(o.d), PX(o.d))) * c)
    return f


anyorder("C21", "multiple of an operator", ["MPO.__mul__", "MPO.__call__"])(_multiple(lambda m, c: m * c))


@anyorder("C21", "identity", ["MPO.eye", "MPO.__call__", "MPO.T"])
def _(e, V):
    o = V.Order(e)
    X, x = tt_input(e, V, o)
    PX = V.prefix(o, X, "PX")
    I = e.gmres.MPO.eye(o.shape)
    V.ints(e, "in_shape", I.in_shape, lambda k: o.n(k), o.d)
    V.ints(e, "out_shape", I.out_shape, lambda k: o.n(k), o.d)
    for nm, m in (("identity", I), ("transposed identity", I.T)):
        y = m(x)
        e.eng.loops = {"TensorTrain.to_numpy": V.Inv(acc=lambda k: PX(k + 1))}
        e.eq(nm, y.to_numpy(), PX.dense())


@anyorder("C21", "operator as a tensor train", ["MPO.to_tt"])
def _(e, V):
    o = V.Order(e)
    o2, p, M, m, PM = operator(e, V, o)
    w = m.to_tt()
    e.isa("a tensor train", w, e.tensor.TensorTrain)
    V.ints(e, "shape of the operator", m.shape, lambda k: o.n(k) * o2.n(k), o.d)
    V.ints(e, "shape", w.shape, lambda k: o.n(k) * o2.n(k), o.d)

    def core(k):
        c = M(k)
        return c.reshape((c.shape[0], c.shape[1] * c.shape[2], c.shape[3]))
    V.each(e, "cores", w.cores, core, o.d)


FN17_ANY = ["CanSlice.slice", "blocked_stream_sketch", "_blocked_stream_sketch_components", "_assemble_blocked_stream_sketches", "SketchContainer.zero"]


# ------------------------------------------------------------------ C17 slices, blocked sketches and rank increase, any order
def cut_ranks(V, o, t, name):
    """ranks 0 <= m(k) <= t(k)"""
    m = V.intfun(name)
    V.cx.opaque.setdefault("facts", {})[name] = lambda a, y: V.z3.Implies(V.z3.And(a >= 1, a <= o.d - 1), y <= t.f(a) + 1)
    return lambda k: V.S(m(V.S(k)) - 1)


def bond_seq(V, o, f):
    return V.mkseq([V.Gen(V.z3.IntVal(1), o.d, lambda k: V.mk(f(k)))], "tuple")


def same_drm(e, V, o, Q, D, lo, hi):
    """Q is the DRM with the matrices of D, columns lo(k)..hi(k)-1"""
    d, at = D.drm, (lambda j: V.S(j + 1)) if D.side == "left" else (lambda j: V.S(o.d - 1 - j))
    n = V.S(o.d - 1)
    e.isa("type", Q, type(d))
    e.true("side", Q.transpose == d.transpose)
    e.true("shape", Q.shape == o.shape)
    e.ieq("seed", Q.seed, d.seed)
    V.ints(e, "ranks of the whole DRM", Q.true_rank, lambda j: D.t(at(j)), n)
    V.ints(e, "first columns", Q.rank_min, lambda j: lo(at(j)), n)
    V.ints(e, "last columns", Q.rank_max, lambda j: hi(at(j)), n)
    V.ints(e, "numbers of columns", Q.rank, lambda j: V.S(hi(at(j)) - lo(at(j))), n)
    if hasattr(D, "cores"):
        c = V.seq_of(d.cores)
        V.each(e, "cores", Q.cores, lambda j: c.at(j), n, fork=True)
    if D.__dict__.get("nnz") is not None:
        V.ints(e, "signs per row", Q.nnz, lambda j: D.nnz(at(j)), n)


def _slice_any(drm, side):
    def f(e, V):
        from . import anysk as K
        o = V.Order(e)
        D = getattr(K, drm)(e, o, side, "L")
        b = cut_ranks(V, o, D.t, "mb")
        m = V.intfun("ma")
        V.cx.opaque["facts"]["ma"] = lambda a, y: y <= b(a) + 1
        a = lambda k: V.S(m(V.S(k)) - 1)
        fr = e.frame(D.drm)
        Q = D.drm.slice(bond_seq(V, o, a), bond_seq(V, o, b))
        e.frame_ok("slicing leaves the DRM unchanged", fr)
        same_drm(e, V, o, Q, D, a, b)
    return f


for drm, nm in (("TrainDRM", "TensorTrainDRM"), ("LazyDRM", "SparseGaussianDRM"), ("SignDRM", "SparseSignDRM")):
    for side in ("left", "right"):
        anyorder("C17", f"{side} {nm}.slice", ["CanSlice.slice", "DRM.__init__"] + ([] if drm == "LazyDRM" else [nm + "._slice_kwargs"]))(_slice_any(drm, side))


class Assembly:
    """contract of the loops over the modes that put block (i, j) in its place.  Before iteration k, the first k arrays of the
    changed list have the block in their rows and columns of the block, and are otherwise as before the loop."""
    owns = True

    def __init__(self, o, attr, put):
        self.o, self.attr, self.put, self.name = o, attr, put, f"assembled {attr}"

    def enter(self, loop, locs):
        c = [x for x in loop.mutated if hasattr(locs.get(x), "Psi_cores")]
        if len(c) != 1 or [x for x in loop.mutated if x not in c and x in locs] or loop.carried:
            raise Unsupported(f"loop changes {loop.mutated} {loop.carried}")
        loop.obj, loop.var = locs[c[0]], c[0]
        loop.block = (locs_int(locs, "i"), locs_int(locs, "j"))
        loop.before = V_().seq_of(getattr(loop.obj, self.attr))

    def old(self, loop, j):
        x = loop.before.at(j)
        return x

    def new(self, loop, j):
        a = self.old(loop, j)
        a = V_().A.Arr(list(a.axes), a.body).fresh()
        w = len(V_().cx.wlog)
        self.put(a, V_().S(j), *loop.block)
        del V_().cx.wlog[w:]            # written by the contract, not by the code
        return a

    def state(self, loop, k):
        V = V_()
        loop.made = {}

        def element(f):
            def g(j):
                key = V.S(j).sexpr()
                if key not in loop.made:
                    a = f(loop, j)
                    loop.made[key] = V.A.Arr(list(a.axes), a.body)
                return loop.made[key]
            return g
        n = loop.before.zlen()
        parts = [V.Gen(V.z3.IntVal(0), k, element(self.new))]
        if loop.mode == "step":
            parts.append(V.Gen(k, n, element(self.old)))
        setattr(loop.obj, self.attr, V.Seq(parts, "list"))
        return {loop.var: loop.obj}

    def check(self, loop, locs, k):
        V = V_()
        j = V.S(k - 1)
        x = V.seq_of(getattr(loop.obj, self.attr)).at(j)
        for a, _, _ in V.cx.wlog[loop.w0:]:
            if a is not x:
                raise Unsupported(f"another array is written: {a} {x} {loop.made}")
        ok, why = V.A.arr_eq(x, self.new(loop, j))
        if not ok:
            V.T.differ()
            raise V.Refuted(self.name, why)
        V.cx.stats.add(self.name, "tensor normaliser + z3")


def V_():
    from . import anyord
    return anyord


def locs_int(locs, x):
    if not isinstance(locs.get(x), int):
        raise Unsupported("number of the block")
    return locs[x]


def blocks_of(e, V, o, c, psi, om, L, R, lcut, rcut):
    """the contracts that a blocked sketch relies on: general_sketch with slices of the DRMs (C13), loops that put the blocks in place"""
    def cols(Q, D):
        """the columns of a slice, as functions of the bond"""
        if type(Q) is not type(D.drm) or Q.transpose != D.drm.transpose or not V.cx.int_eq(Q.seed, D.drm.seed) or hasattr(D, "cores") and V.seq_of(Q.cores).parts != V.seq_of(D.drm.cores).parts:
            raise Unsupported("sketch with another DRM")
        at = (lambda k: V.S(k - 1)) if D.side == "left" else (lambda k: V.S(o.d - 1 - k))
        lo, hi = V.seq_of(Q.rank_min), V.seq_of(Q.rank_max)
        return lambda k: (lo.at(at(V.S(k))), hi.at(at(V.S(k))))

    def general_sketch(x, l, r, method=None):
        """contract of general_sketch with slices of the DRMs (C13): the rows / columns of the slices of every array"""
        if x is not c.x or method is not e.dispatch.SketchMethod.streaming:
            raise Unsupported("sketch of another tensor")
        lc, rc = cols(l, L), cols(r, R)

        def P(k):
            k = V.S(k)
            a = psi(k)
            if not V.cx.decide(k == 0):
                a = a[slice(*lc(k))]
            if not V.cx.decide(k == o.d - 1):
                a = a[:, :, slice(*rc(k + 1))]
            return a

        def O(k):
            k = V.S(k + 1)
            return om(k)[slice(*lc(k)), slice(*rc(k))]
        g = lambda f, n: V.mkseq([V.Gen(V.z3.IntVal(0), n, f)], "list")
        return e.container.SketchContainer(g(P, o.d), g(O, V.S(o.d - 1)))
    e.sketch.general_sketch = general_sketch
    V.snp.trust("general_sketch with slices of DRMs (C13)")

    def put_psi(a, k, i, j):
        first, last = V.cx.decide(k == 0), V.cx.decide(k == o.d - 1)
        b = psi(k)
        rows, cs = slice(None), slice(None)
        if not first:
            rows = slice(V.mk(lcut[i](k)), V.mk(lcut[i + 1](k)))
            b = b[rows]
        if not last:
            cs = slice(V.mk(rcut[j](V.S(k + 1))), V.mk(rcut[j + 1](V.S(k + 1))))
            b = b[:, :, cs]
        a[rows, :, cs] = b

    def put_om(a, k, i, j):
        k = V.S(k + 1)
        rows, cs = slice(V.mk(lcut[i](k)), V.mk(lcut[i + 1](k))), slice(V.mk(rcut[j](k)), V.mk(rcut[j + 1](k)))
        a[rows, cs] = om(k)[rows, cs]
    q = "_assemble_blocked_stream_sketches"
    e.eng.loops = {(q, 1): Assembly(o, "Psi_cores", put_psi), (q, 2): Assembly(o, "Omega_mats", put_om)}


def nought(k):
    return z3.IntVal(0)


def cutting(V, o, t, name, n):
    """a partition of 0..t(k) into n (possibly empty) ranges at every bond k"""
    out = [t]
    for j in range(n - 1, 0, -1):
        m, top = V.intfun(f"{name}{j}"), out[0]
        V.cx.opaque.setdefault("facts", {})[f"{name}{j}"] = lambda a, y, top=top: V.z3.Implies(V.z3.And(a >= 1, a <= o.d - 1), y <= top(a) + 1)
        out.insert(0, lambda k, m=m: V.S(m(V.S(k)) - 1))
    return [nought] + out


class MadeDRM:
    """the contract of DenseGaussianDRM.__init__ (C17: DenseGaussianDRM.slice): with the seed, shape, side and ranks of a DRM, the matrices of
    that DRM, restricted to the columns asked for"""
    owns = True

    def __init__(self, e, *drms):
        self.e, self.drms, self.name = e, drms, "matrices of a DenseGaussianDRM"

    def enter(self, loop, locs):
        V = V_()
        c = [x for x in loop.mutated if hasattr(locs.get(x), "sketching_mats")]
        if len(c) != 1:
            raise Unsupported(f"loop changes {loop.mutated}")
        loop.obj, loop.var = locs[c[0]], c[0]
        Q, e = loop.obj, self.e
        D = [D for D in self.drms if D.drm.transpose == Q.transpose]
        if len(D) != 1:
            raise Unsupported("another DRM")
        loop.D = D = D[0]
        o, n = D.o, V.S(D.o.d - 1)
        at = (lambda j: V.S(j + 1)) if D.side == "left" else (lambda j: V.S(o.d - 1 - j))
        e.true("slice has the shape of the DRM", Q.shape == o.shape)
        e.ieq("slice has the seed of the DRM", Q.seed, D.drm.seed)
        V.ints(e, "slice has the ranks of the whole DRM", Q.true_rank, lambda j: D.t(at(j)), n)

    def state(self, loop, k):
        V = V_()
        if loop.mode == "step":
            from .core import PathDone
            raise PathDone()        # proved for the constructor
        self.e.disturb()
        V.snp.trust("DenseGaussianDRM.__init__ (C17)")
        Q, D = loop.obj, loop.D
        bond = (lambda j: V.S(j + 1)) if D.side == "left" else (lambda j: V.S(D.o.d - 1 - j))
        lo, hi = V.seq_of(Q.rank_min), V.seq_of(Q.rank_max)
        store = {}

        def elem(j):
            j = V.S(j)
            if j.sexpr() not in store:
                m = D.swept(bond(j))
                x = V.A.Arr([m.axes[1], m.axes[0]], m.body)[slice(V.mk(V.Z(lo.at(j))), V.mk(V.Z(hi.at(j))))]
                store[j.sexpr()] = V.A.Arr(x.axes, x.body)
            return store[j.sexpr()]
        Q.sketching_mats = V.mkseq([V.Gen(V.z3.IntVal(0), k, elem)], "list")
        return {loop.var: Q}


def _blocked_any(case, drm="TrainDRM", nl=2, nr=2):
    def f(e, V):
        o, L, R, c, psi, om = sketch_case(e, V, case, drm=drm)
        lcut, rcut = cutting(V, o, L.t, "ml", nl), cutting(V, o, R.t, "mr", nr)
        blocks_of(e, V, o, c, psi, om, L, R, lcut, rcut)
        if drm == "MatsDRM":
            e.eng.loops["DenseGaussianDRM.__init__"] = MadeDRM(e, L, R)
        sq = lambda fs: [bond_seq(V, o, g) for g in fs]
        fr = e.frame(c.x, L.drm, R.drm)
        s = e.sketch.blocked_stream_sketch(c.x, L.drm, R.drm, sq(lcut), sq(rcut))
        e.frame_ok("tensor and DRMs unchanged", fr)
        same_container(e, V, o, s, psi, om, L.t, R.t)
    return f


def _increase_any(drm, case=SparseCase):
    def f(e, V):
        o, L, R, c, psi, om = sketch_case(e, V, case, drm=drm)
        lcut, rcut = cutting(V, o, L.t, "ml", 2), cutting(V, o, R.t, "mr", 2)
        l0, r0 = lcut[1], rcut[1]
        blocks_of(e, V, o, c, psi, om, L, R, lcut, rcut)
        cls = type(L.drm)
        old = cls(bond_seq(V, o, l0), o.shape, False, seed=L.drm.seed), cls(bond_seq(V, o, r0), o.shape, True, seed=R.drm.seed)

        def P(k):
            k = V.S(k)
            a = psi(k)
            if not V.cx.decide(k == 0):
                a = a[slice(0, V.mk(l0(k)))]
            return a if V.cx.decide(k == o.d - 1) else a[:, :, slice(0, V.mk(r0(V.S(k + 1))))]

        def O(k):
            k = V.S(k + 1)
            return om(k)[slice(0, V.mk(l0(k))), slice(0, V.mk(r0(k)))]
        g = lambda f, n: V.mkseq([V.Gen(V.z3.IntVal(0), n, f)], "list")
        s = e.sketch.SketchedTensorTrain(e.container.SketchContainer(g(P, o.d), g(O, V.S(o.d - 1))), *old)
        fr = e.frame(c.x, *old)
        t = s.increase_rank(c.x, L.t.seq(), R.t.seq())
        e.frame_ok("tensor and DRMs unchanged", fr)
        e.isa("a sketched tensor train", t, e.sketch.SketchedTensorTrain)
        which = V.cx.choose(3, ("part",))
        if which < 2:
            D = (L, R)[which]
            same_drm(e, V, o, (t.left_drm, t.right_drm)[which], D, nought, D.t)
        else:
            same_container(e, V, o, t.sketch_, psi, om, L.t, R.t)
    return f


for drm, nm in (("LazyDRM", "SparseGaussianDRM"),):
    anyorder("C17", f"increase_rank of a sketch of a sparse tensor with {nm}", ["SketchedTensorTrain.increase_rank", "CanIncreaseRank.increase_rank"] + FN17_ANY)(_increase_any(drm))
for case, nm, drm, dn in ((TTCase, "tt", "TrainDRM", "TensorTrainDRM"), (CPCase, "cp", "TrainDRM", "TensorTrainDRM"), (SparseCase, "sparse", "TrainDRM", "TensorTrainDRM"),
                          (SparseCase, "sparse", "LazyDRM", "SparseGaussianDRM"), (SparseCase, "sparse", "SignDRM", "SparseSignDRM"),
                          (SparseCase, "sparse", "MatsDRM", "DenseGaussianDRM"), (TTCase, "tt", "MatsDRM", "DenseGaussianDRM"), (DenseCase, "dense", "MatsDRM", "DenseGaussianDRM")):
    anyorder("C17", f"blocked sketch of {nm} with {dn}, 2 x 2 slices", FN17_ANY)(_blocked_any(case, drm))
anyorder("C17", "blocked sketch of tt with TensorTrainDRM, 3 x 1 slices", FN17_ANY)(_blocked_any(TTCase, "TrainDRM", 3, 1))
anyorder("C17", "blocked sketch of tt with TensorTrainDRM, 1 x 3 slices", FN17_ANY)(_blocked_any(TTCase, "TrainDRM", 1, 3))


for kinds, nm in SUMS[4:6]:
    anyorder("C17", f"blocked sketch of a sum {nm} with TensorTrainDRM, 2 x 2 slices", FN17_ANY)(_blocked_any(sum_of(*kinds)))


# ------------------------------------------------------------------ C12 matricization, any order
FN12 = ["matricize"]


def matrix_of(V, o, D, ks):
    """[i_k for k in ks (increasing) | the other modes] of a dense array"""
    fam = D.body.t[0].at[0].fam
    slot, rest, lo, lead = (), (), V.z3.IntVal(0), []
    for k in ks:
        I = () if V.cx.int_eq(lo, k) else o.block(lo, k)
        i = o.mode(k)
        slot, rest, lo = slot + V.pcs(I) + V.pcs(i), rest + tuple(I), V.S(k + 1)
        lead.append(i)
    I = () if V.cx.int_eq(lo, o.d) else o.block(lo, o.d)
    return V.A.Arr(lead + [rest + tuple(I)], V.Expr([V.Term(1, at=(V.Atom(fam, (), [slot + V.pcs(I)]),))])).fresh()


def places(V, o, k):
    V.cx.decide(k == 0)
    V.cx.decide(k == o.d - 1)


def _matricize_one(form):
    def f(e, V):
        o = V.Order(e)
        D = V.opaque_dense(o, "A")
        k = V.generic(0, o.d)
        places(V, o, k)
        fr = e.frame(D)
        arg = V.mk(k)
        M = e.utils.matricize(D, arg if form == "int" else (arg,) if form == "tuple" else [arg], mat_shape=form != "tuple")
        e.frame_ok("array unchanged", fr)
        e.eq("entries", M, matrix_of(V, o, D, [k]))
    return f


for form in ("int", "tuple", "list"):
    anyorder("C12", f"matricize along one mode ({form})", FN12)(_matricize_one(form))


def _matricize_two(down):
    def f(e, V):
        o = V.Order(e)
        D = V.opaque_dense(o, "A")
        k, m = V.generic(0, o.d), V.generic(0, o.d)
        e.assume(V.mk(k) < V.mk(m))
        places(V, o, k)
        places(V, o, m)
        V.cx.decide(m == k + 1)
        fr = e.frame(D)
        M = e.utils.matricize(D, (V.mk(m), V.mk(k)) if down else (V.mk(k), V.mk(m)))
        e.frame_ok("array unchanged", fr)
        W = matrix_of(V, o, D, [k, m])
        e.eq("entries", M, W.transpose((1, 0, 2)) if down else W)
    return f


for down in (False, True):
    anyorder("C12", f"matricize along two modes, {'de' if down else 'in'}creasing", FN12)(_matricize_two(down))


@anyorder("C12", "dematricize", ["dematricize", "matricize"])
def _(e, V):
    o = V.Order(e)
    D = V.opaque_dense(o, "A")
    k = V.generic(0, o.d)
    places(V, o, k)
    W = matrix_of(V, o, D, [k])
    fr = e.frame(W)
    X = e.utils.dematricize(W, V.mk(k), o.shape)
    e.frame_ok("matrix unchanged", fr)
    e.eq("undoes the matricization", X, D)


# ------------------------------------------------------------------ C20, C24 random tensors and DRMs of any order
class Drawing:
    """loop contract: what numpy's global generator was left with by the earlier iterations is unknown"""
    owns = True

    def __init__(self, e, inv):
        self.e, self.inv = e, inv

    def enter(self, loop, locs):
        loop.spec = self
        self.inv.enter(loop, locs)

    def state(self, loop, k):
        self.e.disturb()
        return self.inv.state(loop, k)

    def check(self, loop, locs, k):
        self.inv.check(loop, locs, k)


def _random_tt(e, V, o, r, seed, norm="norm-1"):
    """core k: normal numbers of the k-th word of the seed sequence, scaled"""
    rnd = e.eng.libs["numpy"].random
    words = rnd.SeedSequence(seed).generate_state(V.mk(o.d))
    sqrt = e.eng.libs["numpy"].sqrt

    def core(k):
        k = V.S(k)
        if V.cx.decide(k == 0):
            k = V.z3.IntVal(0)
        elif V.cx.decide(k == o.d - 1):
            k = V.S(o.d - 1)
        a, n, b = V.mk(V.S(r(k))), V.mk(o.n(k)), V.mk(V.S(r(k + 1)))
        G = e.rs.random_normal((a * n, b), seed=words.word(k))
        return (G / sqrt(a * n if norm == "norm-1" else a)).reshape(a, n, b)
    return core


def _seeded_tt(norm, one):
    def f(e, V):
        e.rs.parametric = True
        o = V.Order(e)
        s = e.seed("s")
        q = e.size("q")
        r = o.rank("r") if not one else (lambda k: V.z3.IntVal(1) if V.cx.int_eq(k, 0) or V.cx.int_eq(k, o.d) else V.Z(q))
        core = _random_tt(e, V, o, r, s, norm)
        e.eng.loops = {"TensorTrain.random": V.Inv(elem=core)}
        e.disturb()
        X = e.tensor.TensorTrain.random(o.shape, q if one else r.seq(), s, norm_goal=norm)
        e.isa("type", X, e.tensor.TensorTrain)
        e.true("shape", X.shape == o.shape)
        V.ints(e, "ranks", X.rank, lambda k: r(k + 1), o.d - 1)
        V.each(e, "core k is a function of the seed, its sizes and k", X.cores, core, o.d)
    return f


for norm in ("norm-1", "norm-preserve"):
    for one in (False, True):
        for p in ("C20", "C24"):
            anyorder(p, f"random tensor train, {norm}, {'one rank' if one else 'ranks'}", ["TensorTrain.random", "process_tt_rank"])(_seeded_tt(norm, one))


class Kept:
    """loop contract: iteration j appends elem(j) to a list that an object keeps; acc(k) is a number carried along"""
    owns = True

    def __init__(self, attr, elem, acc):
        self.attr, self.elem, self.acc, self.name = attr, elem, acc, f"{attr} made one by one"

    def enter(self, loop, locs):
        V = V_()
        c = [x for x in loop.mutated if hasattr(locs.get(x), self.attr)]
        n = [x for x in loop.carried if x in locs and type(locs[x]).__name__ != "Poison"]
        if len(c) != 1 or len(n) > 1 or [x for x in loop.mutated if x not in c and x in locs]:
            raise Unsupported(f"loop changes {loop.mutated} {loop.carried}")
        loop.obj, loop.var, loop.num = locs[c[0]], c[0], n[0] if n else None
        if V.Z(V.seq_of(getattr(loop.obj, self.attr)).zlen()).as_long() != 0:
            raise Unsupported("list not empty before the loop")
        if loop.num:
            V.cx.prove(V.Z(locs[loop.num]) == V.Z(self.acc(V.z3.IntVal(0))), self.name)

    def state(self, loop, k):
        V = V_()
        setattr(loop.obj, self.attr, (V.mkseq if loop.mode == "exit" else V.Seq)([V.Gen(V.z3.IntVal(0), k, self.elem)], "list"))
        loop.others = {a: v for a, v in vars(loop.obj).items() if a != self.attr}
        env = {loop.var: loop.obj}
        if loop.num:
            env[loop.num] = V.mk(V.S(self.acc(k)))
        return env

    def check(self, loop, locs, k):
        V = V_()
        now = {a: v for a, v in vars(loop.obj).items() if a != self.attr}
        if locs[loop.var] is not loop.obj or set(now) != set(loop.others) or any(now[a] is not loop.others[a] for a in now):
            raise Unsupported("loop changes an attribute that its contract does not mention")
        p = getattr(loop.obj, self.attr).parts
        if not p or isinstance(p[-1], V.Gen) or len(p) != 2 and not V.cx.int_eq(loop.k, 0):
            raise V.Refuted(self.name, "not one element is appended per iteration")
        ok, why = V.A.arr_eq(p[-1][1], self.elem(V.S(k - 1)))
        if not ok:
            V.T.differ()
            raise V.Refuted(self.name, why)
        if loop.num and not V.cx.int_eq(locs[loop.num], self.acc(k)):
            V.cx.prove(V.Z(locs[loop.num]) == V.Z(self.acc(k)), self.name)
        V.cx.stats.add(self.name, "tensor normaliser + z3")


def drm_matrix(e, V, o, right, seed, r, lo=None, hi=None):
    """matrix j of a DenseGaussianDRM: a function of its seed, its number of rows before slicing and the sizes of the modes that it sees"""
    np = e.eng.libs["numpy"]
    P = V.prod_fn(o.base)[0]
    sizes = (lambda k: P(o.d - k, o.d)) if right else (lambda k: P(V.z3.IntVal(0), k))
    bond = (lambda j: V.S(o.d - 1 - j)) if right else (lambda j: V.S(j + 1))

    def elem(j):
        from .rand import Tok, key_of
        j = V.S(j)
        n, old, b = V.mk(V.S(sizes(V.S(j + 1)))), e.rs.state, bond(j)
        if V.cx.int_eq(j, 0):
            n = V.mk(o.n(0 if not right else V.S(o.d - 1)))
        np.random.seed(seed)
        off = Tok("hash", np.random.uniform(0, n).key)
        np.random.seed(np.mod(seed + off, 2**32 - 1))
        a = np.random.normal(size=(V.mk(V.S(r(b))), n))
        e.rs.state = old
        return a if lo is None else a[V.mk(V.S(lo(b))):V.mk(V.S(hi(b)))]
    return elem, (lambda k: sizes(k) if not V.cx.int_eq(k, 0) else V.z3.IntVal(1))


def _seeded_dense_drm(right):
    def f(e, V):
        e.rs.parametric = True
        o = V.Order(e)
        s, r = e.seed("s"), o.rank("r")
        mat, dims = drm_matrix(e, V, o, right, s, r)
        e.eng.loops = {"DenseGaussianDRM.__init__": Drawing(e, Kept("sketching_mats", mat, dims))}
        e.disturb()
        D = e.drm.DenseGaussianDRM(r.seq(), o.shape, right, seed=s)
        e.ieq("seed", D.seed, s)
        V.each(e, "matrix j is a function of the seed, its rank and the sizes of its modes", D.sketching_mats, mat, o.d - 1)
    return f


for right in (False, True):
    anyorder("C20", f"{'right' if right else 'left'} DenseGaussianDRM", ["DenseGaussianDRM.__init__", "DRM.__init__"])(_seeded_dense_drm(right))


def _seeded_tt_drm(right):
    """the cores are those of a random tensor train with the sizes and ranks in the order of the sweep"""
    def f(e, V):
        from .seqs import rev
        e.rs.parametric = True
        o = V.Order(e)
        s, r = e.seed("s"), o.rank("r")
        at = (lambda k: V.S(o.d - k)) if right else V.S
        rnd = e.eng.libs["numpy"].random
        words = rnd.SeedSequence(s).generate_state(V.mk(o.d))
        sqrt = e.eng.libs["numpy"].sqrt

        def core(k):
            k = V.S(k)
            if V.cx.decide(k == 0):
                k = V.z3.IntVal(0)
            elif V.cx.decide(k == o.d - 1):
                k = V.S(o.d - 1)
            a, n, b = V.mk(V.S(r(at(k)))), V.mk(o.n(k if not right else V.S(o.d - 1 - k))), V.mk(V.S(r(at(V.S(k + 1)))))
            return (e.rs.random_normal((a * n, b), seed=words.word(k)) / sqrt(a)).reshape(a, n, b)
        e.eng.loops = {"TensorTrain.random": V.Inv(elem=core)}
        e.disturb()
        D = e.drm.TensorTrainDRM(r.seq(), o.shape, right, seed=s)
        e.ieq("seed", D.seed, s)
        e.true("side", D.transpose == right)
        e.true("shape", D.shape == o.shape)
        V.ints(e, "ranks in the order of the sweep", D.true_rank, lambda j: r(at(V.S(j + 1))), o.d - 1)
        V.ints(e, "numbers of columns", D.rank, lambda j: r(at(V.S(j + 1))), o.d - 1)
        V.each(e, "core j is a function of the seed, its sizes and j", D.cores, core, o.d - 1)
    return f


for right in (False, True):
    anyorder("C20", f"{'right' if right else 'left'} TensorTrainDRM", ["TensorTrainDRM.__init__", "DRM.__init__", "TensorTrain.random"])(_seeded_tt_drm(right))


@anyorder("C20", "random CP tensor", ["CPTensor.random"])
def _(e, V):
    e.rs.parametric = True
    o = V.Order(e)
    s, q = e.seed("s"), e.size("q")
    words = e.eng.libs["numpy"].random.SeedSequence(s).generate_state(V.mk(o.d))
    sqrt = e.eng.libs["numpy"].sqrt
    core = lambda k: e.rs.random_normal((V.mk(o.n(V.S(k))), q), seed=words.word(V.S(k))) / sqrt(V.mk(o.n(V.S(k))))
    e.eng.loops = {"CPTensor.random": V.Inv(elem=core)}
    e.disturb()
    X = e.tensor.CPTensor.random(o.shape, q, seed=s)
    e.isa("type", X, e.tensor.CPTensor)
    e.true("shape", X.shape == o.shape)
    e.ieq("rank", X.rank, q)
    V.each(e, "factor k is a function of the seed, its sizes and k", X.cores, core, o.d)


anyorder("C24", "random CP tensor", ["CPTensor.random"])(_)


def _dense_slice(right):
    """the slices of a DRM have its matrices, restricted to their columns"""
    def f(e, V):
        e.rs.parametric = True
        o = V.Order(e)
        s, r = e.seed("s"), o.rank("r")
        lcut = cutting(V, o, r, "m", 3)
        lo, hi = lcut[1], lcut[2]
        mat, dims = drm_matrix(e, V, o, right, s, r)
        part, _ = drm_matrix(e, V, o, right, s, r, lo, hi)
        e.eng.loops = {"DenseGaussianDRM.__init__": Drawing(e, Kept("sketching_mats", mat, dims))}
        D = e.drm.DenseGaussianDRM(r.seq(), o.shape, right, seed=s)
        at = (lambda j: V.S(o.d - 1 - j)) if right else (lambda j: V.S(j + 1))
        e.eng.loops = {"DenseGaussianDRM.__init__": Drawing(e, Kept("sketching_mats", part, dims))}
        fr = e.frame(D)
        e.disturb()
        Q = D.slice(bond_seq(V, o, lo), bond_seq(V, o, hi))
        e.frame_ok("DRM unchanged", fr)
        e.true("side", Q.transpose == right)
        e.true("shape", Q.shape == o.shape)
        e.ieq("seed", Q.seed, D.seed)
        V.ints(e, "numbers of columns", Q.rank, lambda j: V.S(hi(at(j)) - lo(at(j))), V.S(o.d - 1))
        V.each(e, "matrices of the slice", Q.sketching_mats, lambda j: D.sketching_mats[V.mk(V.S(j))][V.mk(V.S(lo(at(V.S(j))))):V.mk(V.S(hi(at(V.S(j)))))], o.d - 1)
    return f


for right in (False, True):
    anyorder("C17", f"{'right' if right else 'left'} DenseGaussianDRM.slice", ["CanSlice.slice", "DenseGaussianDRM.__init__", "DRM.__init__"])(_dense_slice(right))


def _zero_any(one):
    def f(e, V):
        o = V.Order(e)
        q = e.size("q")
        r = o.rank("r") if not one else (lambda k: V.z3.IntVal(1) if V.cx.int_eq(k, 0) or V.cx.int_eq(k, o.d) else V.Z(q))
        X = e.tensor.TensorTrain.zero(o.shape, q if one else r.seq())
        e.isa("type", X, e.tensor.TensorTrain)
        e.true("shape", X.shape == o.shape)
        V.ints(e, "ranks", X.rank, lambda k: r(k + 1), o.d - 1)

        def core(k):
            k = V.S(k)
            V.cx.decide(k == 0) or V.cx.decide(k == o.d - 1)
            return V.A.Arr([V.new_axis(V.S(r(k))), V.new_axis(o.n(k)), V.new_axis(V.S(r(V.S(k + 1))))], V.T.const(0))
        V.each(e, "core k is zero", X.cores, core, o.d)
    return f


for one in (False, True):
    anyorder("C24", f"TensorTrain.zero, {'one rank' if one else 'ranks'}", ["TensorTrain.zero", "process_tt_rank"])(_zero_any(one))
