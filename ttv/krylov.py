"""Contract of the TT-GMRES loop, for any number of iterations, over an abstract vector space: a tensor train is a vector of N entries with
exact linear combinations (C03, C06), inner products and norms (C04), the linear map and the preconditioner are matrices (C21), and rounding a
sum gives the sum (C22 with a rank that is large enough)."""
from __future__ import annotations
import z3
from . import arr as A, term as T
from .anyord import S, Inv, generic
from .arr import Arr, new_axis, pcs
from .core import cx, Z, mk, Refuted, Unsupported, PathDone
from .seqs import Seq, Gen, mkseq, of as seq_of
from .term import Expr, Term, Atom, Family


class Space:
    def __init__(self, e, shape):
        self.e, self.shape = e, shape
        self.N = e.size("N")
        sp = self
        np = e.np

        class Vec(e.tensor.Tensor):
            """a tensor train known by its dense vector"""

            def __init__(self, v):
                self.v, self.shape, self.rank = v, sp.shape, ("rank",)

            def __mul__(self, c):
                return Vec(self.v * c)

            def dot(self, o, reverse=False):
                if not isinstance(o, Vec):
                    raise Unsupported("inner product with another kind of tensor")
                return np.sum(self.v * o.v)

            def norm(self):
                return np.sqrt(np.abs(np.sum(self.v * self.v)))

            T = size = to_numpy = property(lambda self: unsupported())

            def __getattr__(self, n):
                if n.startswith("__") or n in ("version", "fresh", "body", "axes"):
                    raise AttributeError(n)
                raise Unsupported(f"{n} of an abstract tensor train")
        Vec.__abstractmethods__ = frozenset()
        self.Vec = Vec

    def vec(self, name):
        return self.Vec(self.e.arr(name, (self.N,)))

    def total(self, s):
        """dense vector of a sum of tensors"""
        ts = seq_of(s.tensors)
        r = None
        for p in ts.parts:
            if isinstance(p, Gen):
                if not cx.decide(p.len() > 0):
                    continue
                v = T.Var(T.Fac(size=p.len()))
                cx.assume(z3.And(v.z >= 0, v.z < p.len()))
                x = p.at(v.z).v.fresh()
                x = Arr(x.axes, T.sum_over(x.body, [v])).fresh()
            else:
                x = p[1].v
            r = x if r is None else r + x
        return r


def unsupported():
    raise Unsupported("the entries of an abstract tensor train")


def in_bound(t, p, hi):
    """the index piece p is in 0..hi"""
    if p[0] != "z":
        return False
    vs, todo = [], [p[2]] + [g for g in t.g if not isinstance(g, tuple)]
    while todo:
        for n in T.zconsts(todo.pop()):
            if n in T.zreg and T.zreg[n] not in vs:
                vs.append(T.zreg[n])
                todo.append(T.zreg[n].fac.size)
    return T.valid_in(vs, [g for g in t.g if not isinstance(g, tuple)], z3.And(p[2] >= 0, p[2] <= hi))


class Basis:
    """nu(0), ..., nu(known): orthonormal;  M nu(k) = sum_i nu(i) H(i, k) for k < known, H(i, k) = 0 for i > k + 1"""

    def __init__(self, e, sp, maxiter, fM):
        self.e, self.sp = e, sp
        self.m = Z(maxiter)
        self.fn, self.fh, self.fM = Family("NU"), Family("H"), fM
        self.known = z3.IntVal(-1)
        me = self

        class Orth(T.PairRule):
            def guard(self, t, a, b):
                r = all(len(x.slots[0]) == 1 and in_bound(t, x.slots[0][0], me.known) for x in (a, b))
                return r

        class Arnoldi(T.PairRule):
            def guard(self, t, a, b):
                return len(b.slots[0]) == 1 and in_bound(t, b.slots[0][0], me.known - 1)

        def arnoldi(pa, pb, ra, rb):
            k = rb[0][0][2]
            i = new_axis(me.m + 1)
            return T.guard(Expr([Term(1, bv=i, at=(Atom(me.fn, (), (pcs(i), ra[0])), Atom(me.fh, (), (pcs(i), rb[0]))))]), [i[0].z <= k + 1])
        cx.rules.append(Orth(self.fn, (1,), self.fn, (1,), lambda pa, pb: True, lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "orthonormal basis", size=Z(sp.N)))
        cx.rules.append(Arnoldi(self.fM, (1,), self.fn, (1,), lambda pa, pb: True, arnoldi, "Arnoldi relation", size=Z(sp.N)))

    def nu(self, i):
        I = new_axis(self.sp.N)
        i = S(i)
        return self.sp.Vec(Arr([I], Expr([Term(1, at=(Atom(self.fn, (), ((("z", self.m + 1, i, None),), pcs(I))),))])).fresh())

    def matrix(self, k):
        """the first k vectors as rows"""
        i, I = new_axis(mk(S(k))), new_axis(self.sp.N)
        return Arr([i, I], Expr([Term(1, at=(Atom(self.fn, (), (pcs(i), pcs(I))),))])).fresh()

    def H(self, k):
        """the matrix after k steps: (maxiter + 1) x maxiter"""
        i, c = new_axis(mk(self.m + 1)), new_axis(mk(self.m))
        return Arr([i, c], T.guard(Expr([Term(1, at=(Atom(self.fh, (), (pcs(i), pcs(c))),))]), [i[0].z <= c[0].z + 1, c[0].z < S(k)])).fresh()


class GmresLoop:
    """state after k iterations: k + 1 basis vectors, the first k columns of H; for k > 0 also y = argmin |H y - beta e1| and the
    residual norm |H y - beta e1|, of which the reported one is the ratio to the norm of the right-hand side"""
    name = "GMRES iteration"
    owns = True

    def __init__(self, e, basis, tol, b_norm):
        self.e, self.b, self.tol, self.b_norm = e, basis, tol, b_norm
        self.ended = None

    def least(self, G, k, beta):
        np = self.e.np
        Hr = G[:k + 1, :k]
        e1 = np.zeros(k + 1)
        e1[0] = beta
        y = np.linalg.lstsq(Hr, e1, rcond=None)[0]
        return y, np.linalg.norm(Hr @ y - e1)

    def roles(self, loop, locs):
        from .loader import Poison
        L = {}
        for x in set(loop.carried) | set(loop.mutated) | {a for a in loop.assigned}:
            v = locs.get(x)
            if x not in locs or type(v) is Poison:
                continue
            if isinstance(v, dict):
                k = "history"
            elif isinstance(v, (list, Seq)):
                k = "nu"
            elif isinstance(v, Arr) and len(v.axes) == 2:
                k = "H"
            elif isinstance(v, Arr) and len(v.axes) == 1:
                k = "y"
            elif isinstance(v, A.SymScalar):
                k = "res"
            else:
                raise Unsupported(f"unexpected variable {x} of the iteration")
            if k in L:
                raise Unsupported(f"two variables {L[k]}, {x} of the iteration of the same kind")
            L[k] = x
        if set(L) - {"y"} != {"history", "nu", "H", "res"}:
            raise Unsupported(f"variables of the iteration: {L}")
        loop.L = L

    def enter(self, loop, locs):
        e, b, np = self.e, self.b, self.e.np
        self.roles(loop, locs)
        L = loop.L
        self.entered = True
        nu, H, res, h = locs[L["nu"]], locs[L["H"]], locs[L["res"]], locs[L["history"]]
        e.ieq("one basis vector", mk(seq_of(nu).zlen()), 1)
        self.beta = res
        x = seq_of(nu).at(0)
        e.eq("first basis vector: the preconditioned residual of the initial value, normalised", x.v * res, self.r0)
        e.seq("its norm", res, np.sqrt(np.abs(np.sum(self.r0 * self.r0))))
        e.eq("H = 0", H, np.zeros((mk(b.m + 1), mk(b.m))))
        e.ieq("one reported residual norm", mk(seq_of(h["residual_norm"]).zlen()), 1)
        e.seq("reported residual norm", seq_of(h["residual_norm"]).at(0), res / self.b_norm)
        e.true("the initial residual norm is not below the tolerance", not bool(h["residual_norm"][0] < self.tol))
        e.ieq("one iteration for each step up to the limit", mk(loop.n), mk(b.m))
        loop.h0 = {k: list(seq_of(v).parts) for k, v in h.items()}
        loop.hist = h

    def reported(self, k):
        """after k steps, k > 0"""
        return self.least(self.b.H(k), mk(S(k)), self.beta)[1] / self.b_norm

    def state(self, loop, k):
        b, L = self.b, loop.L
        k = S(k)
        b.known = k
        env = {}
        env[L["nu"]] = mkseq([Gen(z3.IntVal(0), S(k + 1), b.nu)], "list")
        env[L["H"]] = b.H(k)
        h = type(loop.hist)(loop.hist.default_factory)
        for x, p in loop.h0.items():
            f = self.reported if x == "residual_norm" else (lambda j, x=x: Secret(x))
            h[x] = Seq(p + [Gen(z3.IntVal(1), S(k + 1), f)], "list")
        env[L["history"]] = h
        if cx.decide(k == 0):
            env[L["res"]] = self.beta
        else:
            y, r = self.least(b.H(k), mk(k), self.beta)
            env[L["res"]] = r
            if "y" in L:
                env[L["y"]] = y
        return env

    def check(self, loop, locs, k):
        self.e.true("the iteration goes on only if the residual norm is not below the tolerance", not self.step(loop, locs, k))

    def step(self, loop, locs, k):
        e, b, np, L = self.e, self.b, self.e.np, loop.L
        j = S(k - 1)
        jj = mk(j)
        nu, G, h = locs[L["nu"]], locs[L["H"]], locs[L["history"]]
        if not isinstance(nu, Seq) or not cx.valid(nu.zlen() == k + 1):
            raise Refuted(self.name, "not one basis vector is made per iteration")
        x = nu.parts[-1][1].v
        old = b.H(j)
        e.eq("earlier columns of H unchanged", G[:, :jj], old[:, :jj])
        e.eq("H is upper Hessenberg", G[jj + 2:, jj], np.zeros((mk(b.m - j - 1),)))
        e.eq("later columns of H not yet made", G[:, jj + 1:], np.zeros((mk(b.m + 1), mk(b.m - j - 1))))
        hn = G[jj + 1, jj]
        N = b.matrix(j + 1)
        I1, J1 = new_axis(b.sp.N), new_axis(b.sp.N)
        M = Arr([I1, J1], Expr([Term(1, at=(Atom(b.fM, (), (pcs(I1), pcs(J1))),))])).fresh()
        e.eq("Arnoldi relation: the image of the last basis vector", M @ b.nu(j).v, N.T @ G[:jj + 1, jj] + x * hn)
        e.eq("new basis vector orthogonal to the others", N @ (x * hn), np.zeros((jj + 1,)))
        hx = x * hn
        e.seq("new basis vector normalised", hn, np.sqrt(np.abs(np.sum(hx * hx))))
        y, r = self.least(G, jj + 1, self.beta)
        e.seq("residual norm: minimum over the Krylov space", locs[L["res"]], r)
        if "y" in L:
            e.eq("coefficients: least-squares solution", locs[L["y"]], y)
        rn = h["residual_norm"]
        e.ieq("one residual norm reported per iteration", mk(seq_of(rn).zlen()), mk(S(k + 1)))
        last = seq_of(rn).parts[-1][1]
        e.seq("reported residual norm", last, r / self.b_norm)
        return bool(last < self.tol)

    def broke(self, loop, locs, k):
        """the loop is left in iteration k"""
        below = self.step(loop, locs, k)
        self.e.true("the iteration stops only below the tolerance", below)
        self.ended = k
        return self.state(loop, k)


class Secret:
    def __init__(self, x):
        self.x = x
