"""The contracts interpreted by the verifier: symbolic sizes, uninterpreted arrays, proof obligations."""
from __future__ import annotations
import time
import z3
from . import arr as A, term as T, core, snp, seqs
from .arr import Arr, SymScalar, scalar_of
from .core import cx, Z, Zb, mk, SymInt, SymBool, Unsupported, Refuted, isint
from .env import EnvBase, walk, same_walk
from .loader import Eng
from .term import Expr, Term, Atom, Family, PairRule
from .rand import RandomState, key_of, keys_differ, find


class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, root):
        self.root = root
        self.eng = Eng(root)
        self.begin()

    def begin(self):
        self.eng.reset()
        self.eng.loops = {}
        self.eng.eager = set()
        self.lazy_any = None
        self.rs = RandomState(self.eng)
        self.eng.patches["tt_sketch.utils"] = {"random_normal": self.rs.random_normal}
        self.cache = {}
        self.eng.stubs["fast_lazy_gaussian"] = {"inds_to_normal": self.inds_to_normal, "inds_to_sparse_sign": self.inds_to_sparse_sign}

    # ------------------------------------------------------------- contract of the compiled module (established by C18 and C19)
    def _lazy(self, key, inds, shape, lo, hi):
        rows = list(inds.rowlist if isinstance(inds, snp.Rows) else inds)
        shape = tuple(shape)
        if len(rows) != len(shape):
            raise ValueError("index and shape")
        k = key + tuple(key_of(s) for s in shape)
        fams = cx.opaque.setdefault("lazy", {})
        if find(fams, k) is None:
            fams[k] = Family(f"lazy{len(fams)}")
        fam = fams[k]
        cx.opaque.setdefault("random", {})[fam.name] = key
        base = rows[0].fresh()
        slots = []
        for r, n in zip(rows, shape):
            r = r.fresh()
            m = {}
            for xa, ba in zip(r.axes, base.axes):
                for u, w in zip(xa, ba):
                    m[u] = (w.piece(),)
            z = z3.simplify(T.flat_index(r.sub(m, base.axes).ip))
            A.index_bounds(z, Z(n), base.allvars())
            slots.append((("z", z3.simplify(Z(n)), z, None),))
        ax = A.new_axis(mk(Z(hi) - Z(lo)))
        col = z3.simplify(Z(lo) + (ax[0].z if ax else 0))
        return Arr(list(base.axes) + [ax], Expr([Term(1, at=(Atom(fam, (col,), slots),))])).fresh()

    def inds_to_normal(self, inds, shape, rank_min, rank_max, seed):
        """entry (n, c) is a fixed function of the seed, the multi-index n and the absolute column rank_min + c"""
        if self.lazy_any:
            return self.lazy_any("normal", inds, shape, rank_min, rank_max, seed, None, None)
        snp.trust("inds_to_normal (C18)")
        return self._lazy(("normal", key_of(seed)), inds, shape, rank_min, rank_max)

    def inds_to_sparse_sign(self, inds, shape, rank, rank_min, rank_max, nnz, seed):
        """entry (n, c) is a fixed function of the seed, the multi-index n, the rank, the number of signs and the absolute column"""
        if self.lazy_any:
            return self.lazy_any("sign", inds, shape, rank_min, rank_max, seed, rank, nnz)
        snp.trust("inds_to_sparse_sign (C19)")
        return self._lazy(("sign", key_of(seed), key_of(rank), key_of(nnz)), inds, shape, rank_min, rank_max)

    def sign_request(self, M):
        """rank and number of signs with which a block of sparse signs was requested"""
        t = M.body.t
        if len(t) != 1 or len(t[0].at) != 1 or t[0].at[0].fam.name not in cx.opaque.get("random", {}):
            raise Unsupported("not a block of lazily generated signs")
        return cx.opaque["random"][t[0].at[0].fam.name][-2:]

    def sign_requested(self, name, M, rank, nnz):
        from .rand import keys_equal
        self.true(name, all(keys_equal(x, key_of(y)) for x, y in zip(self.sign_request(M), (rank, nnz))))

    @property
    def np(self):
        return self.eng.libs["numpy"]

    def mod(self, name):
        return self.eng.load(name)

    # ------------------------------------------------------------- inputs
    def size(self, name, lo=1, hi=None):
        z = z3.Int("sz_" + name)
        if name not in cx.opaque.setdefault("sizes", {}):
            cx.opaque["sizes"][name] = z
            cx.assume(z >= lo)
            if hi is not None:
                cx.assume(z <= hi)
        return SymInt(z)

    def assume(self, c):
        cx.assume(Zb(c))

    def min(self, *x): return core.smin(*x)
    def max(self, *x): return core.smax(*x)

    def threshold(self, name):
        """a relative threshold: any number >= 0"""
        return self.scalar(name)

    def count_above(self, S, eps):
        """number of singular values above eps times the largest"""
        return A.npsum(S > S[0] * eps)

    def svdvals_are(self, name, got, S, M):
        """the reported list holds the values S of the certificate"""
        self.eq(name, got, S)

    def implies(self, a, b):
        return SymBool(z3.Implies(Zb(a), Zb(b)))

    def big(self, D):
        return None

    def sq(self, D):
        return None

    def all(self, cs):
        return SymBool(z3.And(*[Zb(c) for c in cs]))

    def differ(self, a, b):
        """the two tuples are different"""
        cx.assume(z3.Or(*[Z(x) != Z(y) for x, y in zip(a, b)]))

    def arr(self, name, sizes):
        if name not in self.cache:
            self.cache[name] = A.opaque(name, list(sizes), label=f"the input {name}", frozen=True)
        a = self.cache[name]
        return a

    def scalar(self, name):
        return SymScalar(T.scal(("in", name)))

    nonzero = scalar

    def well(self, o):
        """numerical precondition of the run-time evaluation: the matrix has no singular values near a cut-off"""

    def nonsingular(self, name, n):
        """a nonsingular matrix"""
        return self.arr(name, (n, n))

    def fullrank(self, name, m, k, n):
        """P (m x k) of full column rank, Q (k x n) of full row rank, and P Q; pinv(P Q) = pinv(Q) pinv(P)"""
        cx.assume(z3.And(Z(m) >= Z(k), Z(n) >= Z(k)))
        P, Q = self.arr(name + "P", (m, k)), self.arr(name + "Q", (k, n))
        snp.trust("pinv(PQ) = pinv(Q) pinv(P) for full-rank P, Q")
        O = A.matmul(P, Q)
        fp, fq = P.body.t[0].at[0].fam, Q.body.t[0].at[0].fam
        gp, gq = Family(cx.fresh("Pinv")), Family(cx.fresh("Qinv"))
        d = lambda pa, pb, ra, rb: T.delta(ra[0], rb[0])
        cx.rules.append(PairRule(gp, (1,), fp, (0,), lambda pa, pb: True, d, "P+P=I", size=Z(m)))
        cx.rules.append(PairRule(fq, (1,), gq, (0,), lambda pa, pb: True, d, "QQ+=I", size=Z(n)))
        xm, xk, xn = A.new_axis(m), A.new_axis(k), A.new_axis(n)
        Pi = Arr([xk, xm], Expr([Term(1, at=(Atom(gp, (), (A.pcs(xk), A.pcs(xm))),))])).fresh()
        xk = A.new_axis(k)
        Qi = Arr([xn, xk], Expr([Term(1, at=(Atom(gq, (), (A.pcs(xn), A.pcs(xk))),))])).fresh()
        cx.opaque.setdefault("pinvprod", []).append((O, A.matmul(Qi, Pi)))
        return P, Q, O

    def seed(self, name):
        """any seed below 2^32 - 1"""
        return self.size(name, lo=0, hi=2**32 - 2)

    def _intfn(self, name, n):
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        cx.opaque.setdefault("bounded", {})[name] = Z(n)
        return f

    def introw(self, name, n, ax):
        f = self._intfn(name, n)
        v = ax[0]
        return Arr([ax], kind="i", ip=(("z", Z(n), f(v.z), None),), store=A.Store(f"the input {name}", True)).fresh() if ax else \
            Arr([ax], kind="i", ip=(("z", Z(n), f(z3.IntVal(0)), None),))

    def coords(self, name, shape, nnz):
        """index array (order x nnz) with distinct in-range columns"""
        if name not in self.cache:
            ax = A.new_axis(nnz)
            if not ax:
                raise Unsupported("one nonzero")
            rows = [self.introw(f"{name}<{k}>", n, (T.Var(ax[0].fac),)) for k, n in enumerate(shape)]
            r = snp.Rows(rows)
            r.store = A.Store(f"the input {name}", True)
            self.cache[name] = r
            self._distinct(name, len(shape), nnz)
        return self.cache[name]

    def _distinct(self, name, d, nnz):
        cx.opaque.setdefault("distinct", []).append((tuple(f"{name}<{k}>" for k in range(d)), Z(nnz)))

    def distinct_points(self, name, inds, shape, n):
        """the columns of the index array are n distinct in-range coordinates"""
        rows = [r.fresh() for r in (inds.rowlist if isinstance(inds, snp.Rows) else list(inds))]
        self.ieq(name + ": number of rows", len(rows), len(shape))
        if n == 1 or (isinstance(n, SymInt) and cx.valid(Z(n) <= 1)):
            single = True
        else:
            single = False
        for i, (r, m) in enumerate(zip(rows, shape)):
            if r.kind != "i" or len(r.axes) != 1:
                raise Unsupported("index array")
            self.ieq(f"{name}: length of row {i}", mk(A.vsize(r.axes[0])), n)
            z = T.flat_index(r.ip)
            A.index_bounds(z, Z(m), r.allvars())
        if not single:
            got = []
            for r in rows:
                z = z3.simplify(T.flat_index(r.ip))
                v = r.axes[0][0].z
                if not (z3.is_app(z) and z.num_args() == 1 and z.arg(0).eq(v)):
                    raise Unsupported(f"index array {z}")
                got.append(z.decl().name())
            for names, m in cx.opaque.get("distinct", []):
                if set(names) <= set(got) and cx.valid(Z(n) <= m):
                    break
            else:
                raise Refuted(name, f"coordinates may coincide: {got}")
        self._ok(name, "z3")

    def disturb(self):
        """unknown random numbers are drawn, another process takes over"""
        self.rs.ambient()
        self.eng.procid += 1

    def same(self, name, a, b):
        """bit-for-bit the same"""
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            self.ieq(name + ": number of parts", len(a), len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                self.same(f"{name} [{i}]", x, y)
        elif isinstance(a, Arr) and isinstance(b, Arr) and a.kind != "f":
            fa, fb = a.fresh(), b.fresh()
            m = {}
            for xa, ya in zip(fb.axes, fa.axes):
                for u, w in zip(xa, ya):
                    m[u] = (w.piece(),)
            za, zb = T.flat_index(fa.ip), T.flat_index(fb.sub(m, fa.axes).ip)
            if not T.valid_in(fa.allvars(), [], za == zb):
                raise Refuted(name, f"{za} and {zb}")
            self._ok(name, "z3")
        elif isinstance(a, Arr) or isinstance(b, Arr):
            self.eq(name, a, b)
        elif not (key_of(a) == key_of(b)):
            raise Refuted(name, f"{key_of(a)} and {key_of(b)}")

    def distinct_random(self, name, a, b, pairwise=False):
        """the arrays stem from different random requests"""
        rnd = cx.opaque.get("random", {})

        def sources(x):
            if isinstance(x, (list, tuple)):
                return [k for y in x for k in sources(y)]
            e = T.normalize(x.fresh().as_float().body)
            return [rnd[n] for n in sorted({at.fam.name for t in e.t for at in t.at}) if n in rnd]
        for x, y in (list(zip(a, b)) if pairwise else [(a, b)]):
            sx, sy = sources(x), sources(y)
            if not sx or not sy:
                raise Refuted(name, "not random")
            for k in sx:
                for l in sy:
                    if not keys_differ(k, l):
                        raise Refuted(name, f"the requests {k} and {l} may coincide")
        self._ok(name, "z3")

    def points(self, name, shape, n):
        if name not in self.cache:
            ax = A.new_axis(n)
            rows = [self.introw(f"{name}<{k}>", s, (T.Var(ax[0].fac),)) for k, s in enumerate(shape)]
            self.cache[name] = snp.Rows(rows)
        return self.cache[name]

    def at_points(self, D, pts):
        return A.getitem(D, tuple(pts.rowlist))

    def dense_sparse(self, shape, inds, ent):
        """entry (i1..id) = sum of the stored values whose coordinates are (i1..id)"""
        ent = ent.fresh()
        v = ent.axes[0]
        axes = [A.new_axis(n) for n in shape]
        e = ent.body
        g = []
        for row, ax in zip(inds.rowlist, axes):
            r = row.fresh()
            q = r.sub({r.axes[0][0]: (v[0].piece(),)}, [v]).ip
            g.append((T.flat_index(q)) == (ax[0].z if ax else z3.IntVal(0)))
        return Arr(axes, T.sum_over(T.guard(e, g), list(v))).fresh()

    # ------------------------------------------------------------- obligations
    def _ok(self, name, backend):
        cx.stats.add(name, backend)

    def eq(self, name, a, b, scale=None):
        a, b = A.as_arr(a), A.as_arr(b)
        ok, why = A.arr_eq(a, b)
        if not ok:
            T.differ()
            raise Refuted(name, why)
        self._ok(name, "tensor normaliser + z3")

    def seq(self, name, a, b, **k):
        """equality of two real numbers"""
        if not T.equal(SymScalar.of(scalar_of(a)).e, SymScalar.of(scalar_of(b)).e):
            raise Refuted(name, f"values differ: {str(T.last_diff[0])[:400]}")
        self._ok(name, "tensor normaliser + z3")

    def ieq(self, name, a, b):
        a, b = scalar_of(a), scalar_of(b)
        if isinstance(a, SymScalar) or isinstance(b, SymScalar):
            return self.seq(name, a, b)
        cx.prove(Z(a) == Z(b), name)

    def true(self, name, c):
        if isinstance(c, bool):
            if not c:
                raise Refuted(name, "false")
            self._ok(name, "evaluation")
            return
        cx.prove(Zb(c), name)

    def raises(self, name, exc, f):
        try:
            f()
        except exc:
            self._ok(name, "evaluation")
            return
        raise Refuted(name, f"no {exc.__name__} is raised")

    # ------------------------------------------------------------- frames
    def frame(self, *objs):
        return [(o, _versions(walk(o, set()))) for o in objs]

    def frame_ok(self, name, snap):
        for i, (o, w) in enumerate(snap):
            bad = same_walk(w, walk(o, set()), _leafeq, f"operand {i}")
            if bad:
                raise Refuted(name, f"{bad} is modified")
        self._ok(name, "evaluation")


def _versions(w):
    if isinstance(w, tuple):
        if len(w) == 2 and w[0] == "leaf":
            v = w[1]
            return ("leaf", (v, v.store.version if isinstance(v, Arr) else None, getattr(v, "version", None)))
        return tuple(_versions(x) for x in w)
    return w


def _leafeq(a, b):
    v, ver, ver2 = a
    if v is b:
        return not isinstance(b, Arr) or b.store.version == ver
    if isinstance(v, SymInt) and isinstance(b, SymInt):
        return v.z.eq(b.z)
    try:
        return isinstance(v, (int, float, str, bool, type(None))) and v == b
    except Exception:
        return False
