"""Contracts of C21-C23 (linear maps, rounding of sums, GMRES)."""
from .scen import scenario
from .env import LET


# ------------------------------------------------------------------ C21
def mpo(e, name, ins, outs):
    d = len(ins)
    rr = (1,) + tuple(e.size(f"{name}r{i}") for i in range(1, d)) + (1,)
    C = [e.arr(f"{name}{i}", (rr[i], ins[i], outs[i], rr[i + 1])) for i in range(d)]
    return e.gmres.MPO(list(C)), C, dense_mpo(e, C), rr[1:-1]


def dense_mpo(e, C):
    """entry (i1,o1,..,id,od): product of the core slices"""
    d = len(C)
    r, n = LET[:d + 1], LET[26:26 + 2 * d]
    return e.np.einsum(",".join(r[i] + n[2 * i:2 * i + 2] + r[i + 1] for i in range(d)) + "->" + n, *C)


def apply_dense(e, M, D):
    """matrix-vector product"""
    d = len(D.shape)
    i, o = LET[:d], LET[26:26 + d]
    return e.np.einsum("".join(a + b for a, b in zip(i, o)) + "," + i + "->" + o, M, D)


def swap(e, M):
    d = len(M.shape) // 2
    return e.np.transpose(M, tuple(x for k in range(d) for x in (2 * k + 1, 2 * k)))


def _c21(d):
    def f(e):
        ins, outs = e.shape(d, "i"), e.shape(d, "o")
        M, C, D, q = mpo(e, "M", ins, outs)
        X, E = e.tt("X", ins)
        Z, F = e.tt("Z", outs)
        c = e.nonzero("c")
        fr = e.frame(M, X, Z)
        e.shape_is("in_shape", M.in_shape, ins)
        e.shape_is("out_shape", M.out_shape, outs)
        e.shape_is("rank", M.rank, q)
        e.eq("to_numpy", M.to_numpy(), D)
        Y = M(X)
        e.isa("a tensor train", Y, e.tensor.TensorTrain)
        e.eq("applying is the matrix-vector product", Y.to_numpy(), apply_dense(e, D, E))
        e.shape_is("output shape", Y.shape, outs)
        e.shape_is("ranks are multiplied", Y.rank, tuple(a * b for a, b in zip(q, X.rank)))
        T = M.T
        e.isa("an operator", T, e.gmres.MPO)
        e.eq("transposed operator", T.to_numpy(), swap(e, D))
        e.shape_is("in_shape of the transpose", T.in_shape, outs)
        e.shape_is("out_shape of the transpose", T.out_shape, ins)
        e.eq("applying the transpose", T(Z).to_numpy(), apply_dense(e, swap(e, D), F))
        e.eq("transposed twice", T.T.to_numpy(), D)
        W = M.to_tt()
        e.shape_is("shape of the tensor train", W.shape, tuple(a * b for a, b in zip(ins, outs)))
        e.shape_is("shape", M.shape, tuple(a * b for a, b in zip(ins, outs)))
        e.eq("operator as tensor train", W.to_numpy(), D.reshape(tuple(a * b for a, b in zip(ins, outs))))
        e.eq("scalar multiple", (M * c).to_numpy(), D * c)
        e.eq("scalar multiple from the left", (c * M).to_numpy(), D * c)
        e.eq("applying a multiple", (M * c)(X).to_numpy(), apply_dense(e, D, E) * c)
        e.eq("negative", (-M).to_numpy(), D * -1)
        e.eq("quotient", (M / c).to_numpy(), D * (1 / c))
        e.frame_ok("operators and tensors are unchanged", fr)
    return f


def _c21eye(d):
    def f(e):
        shape = e.shape(d)
        X, D = e.tt("X", shape)
        I = e.gmres.MPO.eye(shape)
        e.shape_is("in_shape", I.in_shape, shape)
        e.shape_is("out_shape", I.out_shape, shape)
        Y = I(X)
        e.eq("identity", Y.to_numpy(), D)
        e.shape_is("ranks kept", Y.rank, X.rank)
        e.eq("transposed identity", I.T(X).to_numpy(), D)
    return f


for d in (1, 2, 3):
    scenario("C21", f"MPO order {d}", d=d, fns=["MPO.*"])(_c21(d))
    scenario("C21", f"identity order {d}", d=d, fns=["MPO.eye", "MPO.__call__"])(_c21eye(d))


def mode_apply(e, A, D, m):
    d = len(D.shape)
    n = LET[:d]
    return e.np.einsum(f"z{n[m]},{n}->{n[:m]}z{n[m + 1:]}", A, D)


def _c21p(d, m):
    def f(e):
        shape = e.shape(d)
        X, D = e.tt("X", shape)
        A = e.nonsingular("A", shape[m])
        P = e.gmres.TTPrecond(A, shape, mode=m)
        e.shape_is("in_shape", P.in_shape, shape)
        e.shape_is("out_shape", P.out_shape, shape)
        fr = e.frame(P, X)
        F, B = P.forward_call(X), P.backward_call(X)
        e.eq("forward multiplies by the matrix along the mode", F.to_numpy(), mode_apply(e, A, D, m))
        e.eq("backward solves with the matrix along the mode", mode_apply(e, A, B.to_numpy(), m), D)
        e.eq("backward after forward", P.backward_call(F).to_numpy(), D)
        e.eq("forward after backward", P.forward_call(B).to_numpy(), D)
        e.eq("calling solves", mode_apply(e, A, P(X).to_numpy(), m), D)
        for Y in (F, B):
            e.shape_is("shape", Y.shape, shape)
            e.shape_is("ranks kept", Y.rank, X.rank)
        e.frame_ok("preconditioner and tensor are unchanged", fr)
    return f


for d in (1, 2, 3):
    for m in range(d):
        scenario("C21", f"TTPrecond mode {m} order {d}", d=d, fns=["TTPrecond.*", "matricize", "dematricize"])(_c21p(d, m))


def _c21s(nm, nx, d):
    def f(e):
        ins, outs = e.shape(d, "i"), e.shape(d, "o")
        Ms = [mpo(e, f"M{j}", ins, outs) for j in range(nm)]
        A = e.gmres.TTLinearMapSum([m[0] for m in Ms])
        Xs = [e.tt(f"X{j}", ins) for j in range(max(nx, 1))]
        X = Xs[0][0] if nx == 0 else e.tensor.TensorSum([x[0] for x in Xs])
        fr = e.frame(A, X)
        Y = A(X)
        want = 0
        for x in Xs:
            for m in Ms:
                want = want + apply_dense(e, m[2], x[1])
        e.isa("a sum", Y, e.tensor.TensorSum)
        e.eq("sum of all images", Y.to_numpy(), want)
        e.ieq("number of summands", Y.num_summands, nm * max(nx, 1))
        e.shape_is("shape", Y.shape, outs)
        e.shape_is("in_shape", A.in_shape, ins)
        e.shape_is("out_shape", A.out_shape, outs)
        e.frame_ok("maps and tensors are unchanged", fr)
    return f


for nm in (1, 2, 3):
    for nx in (0, 1, 2):
        scenario("C21", f"sum of {nm} maps applied to {nx or 'one'} {'tensor train' if nx == 0 else 'summands'}", d=2, fns=["TTLinearMapSum.__call__"])(_c21s(nm, nx, 2))


# ------------------------------------------------------------------ C26, linear maps
def _c26maps(e):
    G = e.gmres
    e.raises("empty sum", ValueError, lambda: G.TTLinearMapSum([]))
    a, b, c, d = (e.shape(2, x) for x in "iopq")
    A, B = mpo(e, "A", a, b)[0], mpo(e, "B", c, d)[0]
    if e.all([x == y for x, y in zip(a + b, c + d)]):
        S = G.TTLinearMapSum([A, B])
        e.shape_is("in_shape", S.in_shape, a)
    else:
        e.raises("inconsistent shapes", ValueError, lambda: G.TTLinearMapSum([A, B]))
        e.raises("inconsistent shapes, third map", ValueError, lambda: G.TTLinearMapSum([A, A, B]))


scenario("C26", "sum of linear maps", d=2, fns=["TTLinearMapSum.__init__"])(_c26maps)


def _c26gmres(which):
    def f(e):
        G = e.gmres
        a = e.shape(2, "i")
        o = e.shape(2, "o")
        m = e.shape(2, "m")
        k = e.size("k")
        if which == "rhs":
            e.differ(o, m)
            A = G.TTLinearMapSum([mpo(e, "A", a, o)[0]])
            e.raises("right-hand side of another shape", ValueError, lambda: G.tt_sum_gmres(A, e.tt("b", m)[0], k))
        elif which == "x0":
            e.differ(a, m)
            A = G.TTLinearMapSum([mpo(e, "A", a, a)[0]])
            e.raises("initial value of another shape", ValueError, lambda: G.tt_sum_gmres(A, e.tt("b", a)[0], k, x0=e.tt("x", m)[0]))
        else:
            e.differ(a, o)
            A = G.TTLinearMapSum([mpo(e, "A", a, o)[0]])
            e.raises("operator between different shapes", ValueError, lambda: G.tt_sum_gmres(A, e.tt("b", o)[0], k))
            e.raises("operator between different shapes, with initial value", ValueError, lambda: G.tt_sum_gmres(A, e.tt("b", o)[0], k, x0=e.tt("x", a)[0]))
    return f


for w in ("rhs", "x0", "square"):
    scenario("C26", f"gmres shapes: {w}", d=2, fns=["tt_sum_gmres"])(_c26gmres(w))


# ------------------------------------------------------------------ C22
def direct_sum(e, cs):
    """cores of the direct sum of tensor trains"""
    np = e.np
    out = cs[0]
    for c in cs[1:]:
        new = []
        for i, (A, B) in enumerate(zip(out, c)):
            if i == 0:
                new.append(np.concatenate((A, B), axis=2))
            elif i == len(out) - 1:
                new.append(np.concatenate((A, B), axis=0))
            else:
                new.append(np.concatenate((np.concatenate((A, np.zeros((A.shape[0], A.shape[1], B.shape[2]))), axis=2),
                                           np.concatenate((np.zeros((B.shape[0], B.shape[1], A.shape[2])), B), axis=2)), axis=0))
        out = new
    return out


def _c22(method, n, d, with_eps, rk):
    def f(e):
        shape = e.shape(d)
        C = [e.tt_cores(f"X{j}", shape) for j in range(n)]
        TT = e.tensor.TensorTrain
        S = e.tensor.TensorSum([TT(list(c)) for c in C])
        q = e.size("q")
        full = (q,) * (d - 1) if rk == "int" else tuple(e.size(f"q{i}") for i in range(1, d))
        mr = q if rk == "int" else full
        eps = e.threshold("eps") if with_eps else None
        lim = e.utils.process_tt_rank(full, shape, True)
        fr = e.frame(S)
        Y = e.gmres.round_tt_sum(S, mr, eps, method)
        e.isa("a tensor train", Y, TT)
        e.shape_is("shape", Y.shape, shape)
        for i in range(d - 1):
            e.true(f"rank {i} at most the trimmed maximum rank", Y.rank[i] <= lim[i])
        if method in ("exact", "pairwise"):
            if method == "exact":
                W = TT(direct_sum(e, C)).round(eps, full)
            else:
                W = TT(list(C[0]))
                if n == 1:
                    W = W.round(eps, full)
                for c in C[1:]:
                    W = TT(direct_sum(e, [W.cores, c])).round(eps, full)
            e.shape_is("ranks: those of rounding the direct sum", Y.rank, W.rank)
            e.eq("same tensor as rounding the direct sum", e.dense_tt(Y.cores), e.dense_tt(W.cores))
        e.frame_ok("the sum is unchanged", fr)
    return f


for m in ("exact", "pairwise", "sketch", "orth_sketch"):
    for n in (1, 2, 3):
        for d in (2, 3):
            for we in (False, True):
                for rk in ("int", "tuple"):
                    if m not in ("exact", "pairwise") and (we or (n == 3 and d == 3)):
                        continue
                    quick = d == 2 or (n < 3 and rk == "tuple" and m != "pairwise") or (n < 3 and m == "pairwise" and rk == "tuple" and not we)
                    scenario("C22", f"{m} of {n} summands{' eps' if we else ''} rank {rk} order {d}", d=d, fns=["round_tt_sum", "TensorTrain.add", "TensorTrain.round"],
                             tier="quick" if quick else "thorough")(_c22(m, n, d, we, rk))


def _c22other(e):
    shape = e.shape(2)
    S, _ = e.make("sum:tt+tt", "X", shape)
    R = e.gmres.round_tt_sum
    fr = e.frame(S)
    e.true("no method gives back the sum", R(S, e.size("q"), None, None) is S)
    e.true("no method gives back the sum, whatever the threshold", R(S, e.size("q"), e.threshold("eps"), method=None) is S)
    for m in ("Exact", "", "svd", "sketched", 0, False):
        e.raises(f"unknown method {m!r}", ValueError, lambda: R(S, e.size("q"), method=m))
        e.raises(f"unknown method {m!r} with threshold", ValueError, lambda: R(S, 2, 0.5, m))
    e.frame_ok("the sum is unchanged", fr)


scenario("C22", "no method and unknown methods", d=2, fns=["round_tt_sum"])(_c22other)
