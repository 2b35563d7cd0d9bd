"""Sketches of tensors of any order: ghost contractions with the matrices of tensor-train DRMs, loop contracts of the sketching code."""
from __future__ import annotations
import z3
from . import anyord as V, arr as A, term as T
from .anyord import S, Inv, Cores, Arrays, prefix, suffix, gram, rows_dot, link, swapped
from .core import cx, Z, mk, Unsupported
from .seqs import Gen, mkseq


class TrainDRM:
    """tensor-train DRM: its matrix at bond k (1 <= k < d) is the product of the cores of the modes on its side, columns lo(k)..hi(k)-1"""

    def __init__(self, e, o, side, name, sliced=False, rank=None):
        self.e, self.o, self.side = e, o, side
        self.t = o.rank(rank or ("l" if side == "left" else "r"))
        self.cores = Cores(o, name, self.t)
        self.M = prefix(o, self.cores, "P" + name) if side == "left" else suffix(o, self.cores, "Q" + name)
        d = o.d
        c = self.cores
        if side == "left":
            lst = mkseq([("e", c.core(0)), Gen(z3.IntVal(1), S(d - 1), c.core)], "list")
        else:
            # stored in the order in which the sweep runs, as cores of a train of the reversed modes
            self.store = {}

            def back(j):
                j = S(j)
                key = j.sexpr()
                if key not in self.store:
                    x = swapped(c.core(S(d - 1 - j)))
                    self.store[key] = A.Arr(x.axes, x.body, store=A.Store(f"the input {name}", True))
                return self.store[key]
            lst = mkseq([("e", back(0)), Gen(z3.IntVal(1), S(d - 1), back)], "list")
        kw = self.columns(name, sliced)
        self.drm = e.drm.TensorTrainDRM(self.t.seq(), o.shape, side == "right", seed=e.seed("s" + name), cores=lst, **kw)

    def columns(self, name, sliced):
        """all columns, or slices of them: further arguments of the constructor"""
        d = self.o.d
        kw = {}
        self.sliced = sliced
        if sliced:
            lo1, self.hi = V.intfun("lo" + name), V.intfun("hi" + name)
            self.lo = lambda k: lo1(k) - 1
            t = self.t
            cx.opaque.setdefault("facts", {})["lo" + name] = lambda a, x: x <= self.hi(a)
            cx.opaque.setdefault("facts", {})["hi" + name] = lambda a, x: z3.And(lo1(a) <= x, x <= z3.If(z3.And(a >= 1, a <= d - 1), t.f(a), x))
            sq = lambda f: mkseq([Gen(z3.IntVal(1), d, lambda k: mk(f(k)))], "tuple")
            kw = dict(rank_min=sq(self.lo), rank_max=sq(self.hi), true_rank=self.t.seq())
        return kw

    def rank(self, k):
        """number of columns at bond k"""
        k = S(k)
        if not self.sliced:
            return self.t(k)
        return z3.IntVal(1) if cx.int_eq(k, 0) or cx.int_eq(k, self.o.d) else S(self.hi(k) - self.lo(k))

    def mat(self, k):
        """its matrix at bond k: modes, then columns (left), or rows, then modes (right)"""
        return self.cut(self.M(k), k, rows=self.side == "right")

    def swept(self, k):
        """its matrix at bond k before slicing: modes in the order of the sweep, then columns, as a matrix"""
        m = self.M(k) if self.side == "left" else V.rows_reversed(V.turned(self.M(k)))
        return A.Arr([x.vs if isinstance(x, A.Star) else x for x in m.axes], m.body)

    def sketch(self, k):
        """the sketch of a dense tensor: the sliced matrix, columns first"""
        m = self.swept(k)
        return self.cut(A.Arr([m.axes[1], m.axes[0]], m.body), k, rows=True)

    def cut(self, a, k, rows=False):
        if not self.sliced:
            return a
        sl = slice(mk(self.lo(S(k))), mk(self.hi(S(k))))
        return a[sl] if rows else a[:, sl]


class LazyDRM(TrainDRM):
    """DRM whose rows are computed when they are asked for: its matrix at bond k has unknown entries M(k)[modes of its side, column]"""

    def __init__(self, e, o, side, name, sliced=False, rank=None):
        self.e, self.o, self.side = e, o, side
        self.t = o.rank(rank or ("l" if side == "left" else "r"))
        fam = V.Family("M" + name)

        def M(k):
            k = S(k)
            I, a = V.Star(o.block(0, k) if side == "left" else o.block(k, o.d)), V.new_axis(self.t(k))
            ax = [I, a] if side == "left" else [a, I]
            return A.Arr(ax, V.Expr([V.Term(1, at=(V.Atom(fam, (k,), [V.pcs(x.vs if x is I else x) for x in ax]),))])).fresh()
        self.M = M
        kw = self.columns(name, sliced)
        self.nnz = None
        self.make(name, kw)

    def make(self, name, kw):
        cx.opaque.setdefault("lazydrms", []).append(self)
        self.e.lazy_any = lambda *a: lazy_block(self.e, *a)
        self.drm = self.e.drm.SparseGaussianDRM(self.t.seq(), self.o.shape, self.side == "right", seed=self.e.seed("s" + name), **kw)


class SignDRM(LazyDRM):
    def make(self, name, kw):
        cx.opaque.setdefault("lazydrms", []).append(self)
        self.e.lazy_any = lambda *a: lazy_block(self.e, *a)
        self.nnz = V.intfun("nz" + name)
        nz = mkseq([Gen(z3.IntVal(1), self.o.d, lambda k: mk(self.nnz(k)))], "tuple")
        self.drm = self.e.drm.SparseSignDRM(self.t.seq(), self.o.shape, self.side == "right", seed=self.e.seed("s" + name), num_non_zero_per_row=nz, **kw)


class MatsDRM(LazyDRM):
    """DRM that stores its matrices: unknown entries M(k)[column, modes of its side in the order of the sweep]"""

    def make(self, name, kw):
        e, o = self.e, self.o
        cls = e.drm.DenseGaussianDRM
        self.drm = cls.__new__(cls)
        super(cls, self.drm).__init__(self.t.seq(), o.shape, self.side == "right", seed=e.seed("s" + name), **kw)
        self.store = {}
        bond = (lambda j: S(j + 1)) if self.side == "left" else (lambda j: S(o.d - 1 - j))

        def mats(j):
            k = bond(S(j))
            key = k.sexpr()
            if key not in self.store:
                x = self.sketch(k)
                self.store[key] = A.Arr(x.axes, x.body, store=A.Store(f"the input {name}", True))
            return self.store[key]
        self.drm.sketching_mats = mkseq([Gen(z3.IntVal(0), S(o.d - 1), mats)], "list")


def lazy_block(e, kind, inds, shape, lo, hi, seed, rank, nnz):
    """contract of inds_to_normal and inds_to_sparse_sign (C18, C19): rows of one fixed matrix per seed, shape (and number of signs), at the given coordinates"""
    s, sh = V.seq_of(inds.rows() if isinstance(inds, V.snp.SymRows) else inds.rowlist if isinstance(inds, V.snp.Rows) else inds), V.seq_of(shape)
    k = S(s.zlen())
    if not cx.int_eq(k, sh.zlen()):
        raise Unsupported("index and shape")
    for D in cx.opaque.get("lazydrms", []):
        o, J = D.o, D.coords
        at = (lambda j: j) if D.side == "left" else (lambda j: S(o.d - 1 - j))
        if not same_rows(s, lambda j: J.f(at(j), Q)):
            continue
        j = z3.Int(cx.fresh("j"))
        cx.solver.push()
        try:
            cx.solver.add(j >= 0, j < k)
            ok = cx.solver.check(Z(sh.parts[0].at(j) if isinstance(sh.parts[0], Gen) else sh.parts[0][1]) != o.n(at(j) if isinstance(sh.parts[0], Gen) else at(z3.IntVal(0)))) == z3.unsat
        finally:
            cx.solver.pop()
        if len(sh.parts) != 1 or not ok:
            raise Unsupported("lazy entries for another shape")
        if isinstance(D, SignDRM) != (kind == "sign") or not cx.valid(Z(seed) == (k - 1 + Z(D.drm.seed)) % 2**63):
            raise Unsupported("lazy entries with another seed")
        b = k if D.side == "left" else S(o.d - k)
        if kind == "sign" and not (cx.int_eq(rank, D.t(b)) and cx.int_eq(nnz, D.nnz(b))):
            raise V.Refuted("the requested signs are those of the DRM", f"rank {rank}, {nnz} signs per row at bond {b}")
        V.snp.trust("inds_to_normal (C18)" if kind == "normal" else "inds_to_sparse_sign (C19)")
        return D.full(b)[:, slice(mk(Z(lo)), mk(Z(hi)))]
    raise Unsupported("lazy entries at other coordinates")


Q = z3.Int("column!q")


def same_rows(s, want):
    """row j is want(j) at column Q, for every j"""
    if len(s.parts) != 1:
        return False
    p = s.parts[0]
    j = z3.Int(cx.fresh("j"))
    r, w = (p.at(j), want(j)) if isinstance(p, Gen) else (p[1], want(z3.IntVal(0)))
    if not isinstance(r, A.Arr) or r.kind != "i" or len(r.axes) != 1 or not r.axes[0]:
        return False
    return z3.simplify(z3.substitute(T.flat_index(r.ip), (r.axes[0][0].z, Q))).eq(z3.simplify(w))


class Sweep(Inv):
    """the partial contractions of tensor and DRM, mode by mode.  full(k): those at bond k, without slicing the columns"""

    def __init__(self, D, full):
        self.D, self.full = D, full
        o = D.o
        self.name = "partial contractions"
        bond = (lambda k: k) if D.side == "left" else (lambda k: S(o.d - k))
        self.acc, self.live = None, lambda k: full(bond(k))
        self.elem = lambda j: D.cut(full(bond(S(j + 1))), bond(S(j + 1)))
        self.bond = bond
        if isinstance(D, LazyDRM):
            self.live = None


class ColumnSweep(Sweep):
    """the same for coordinates: the contractions are yielded transposed"""

    def __init__(self, D, full):
        super().__init__(D, full)
        f = self.elem
        self.elem = lambda j: f(j).transpose((1, 0))
        if isinstance(D, LazyDRM):
            self.live = None
            D.full = full


class PartialDense(Inv):
    """the left parts of a tensor train as matrices, cores 0..j+1 in step j; by the tensor train"""

    def __init__(self, x, P, Q, o):
        self.x, self.name = x, "partial contractions of the cores"
        self.acc = self.live = None
        flat = lambda a: A.Arr([v.vs if isinstance(v, A.Star) else v for v in a.axes], a.body).fresh()
        two = lambda j: z3.IntVal(2) if cx.decide(S(j) == 0) else S(j + 2)
        self.of_x = lambda j: flat(P(two(j)))
        self.of_t = lambda j: flat(V.rows_reversed(V.turned(Q(S(o.d - two(j))))))

    def enter(self, loop, locs):
        # a tensor train that is not x is its transpose: its first part is checked below
        loop.mine = any(v is self.x for v in locs.values())
        super().enter(loop, locs)

    def state(self, loop, k):
        self.elem = self.of_x if loop.mine else self.of_t
        return super().state(loop, k)

    def roles(self, loop, locs):
        self.elem = self.of_x
        super().roles(loop, locs)

    def check(self, loop, locs, k):
        self.elem = self.of_x if loop.mine else self.of_t
        super().check(loop, locs, k)


class DenseSweep(Inv):
    """the matrices of the DRM, bond by bond; the first one is made before the loop"""

    def __init__(self, D):
        self.D, self.name = D, "matrices of the DRM"
        o = D.o
        bond = (lambda k: k) if D.side == "left" else (lambda k: S(o.d - k))
        self.acc, self.live = (lambda t: D.swept(bond(S(t + 1)))), None
        self.elem = lambda j: D.sketch(bond(S(j + 2)))


class PerDRM:
    """contract of a sketching loop by the DRM whose method runs"""
    owns = True

    def __init__(self, *specs):
        self.specs = specs

    def _of(self, loop, locs):
        for s in self.specs:
            if any(v is s.D.drm for v in locs.values()):
                return s
        raise Unsupported("sketch with another DRM")

    def enter(self, loop, locs):
        loop.spec = self._of(loop, locs)
        loop.spec.enter(loop, locs)


class CoreSweep(Inv):
    """contractions whose first one is made before the loop: full(k), rows in the order of the sweep"""

    def __init__(self, D, full):
        o = D.o
        bond = (lambda k: k) if D.side == "left" else (lambda k: S(o.d - k))
        super().__init__(acc=lambda t: full(bond(S(t + 1))), elem=lambda j: D.cut(full(bond(S(j + 2))), bond(S(j + 2))), name="partial contractions")
        self.D = D


class MatsSweep(Inv):
    """the stored matrices of the DRM, bond by bond"""

    def __init__(self, D):
        bond = (lambda k: k) if D.side == "left" else (lambda k: S(D.o.d - k))
        super().__init__(elem=lambda j: D.sketch(bond(S(j + 1))), name="matrices of the DRM")
        self.D = D


class Interleaved(Inv):
    """contract of a loop that draws one element from each of several generators and yields the tuple of them: all generators stand at element k before iteration k"""

    def __init__(self, e):
        self.eng, self.name = e.eng, "the elements of the generators"
        self.acc = self.live = None
        self.elem = lambda j: ()

    def enter(self, loop, locs):
        gens = []
        for v in locs.values():
            for x in [v] if not isinstance(v, (list, tuple)) else v:
                if id(x) in self.eng.cursors and not any(x is g for g in gens):
                    gens.append(x)
        self.gens = gens
        self.elem = lambda j: tuple(g.at(j) for g in gens)
        for g in gens:
            self.at(g, z3.IntVal(0), "the generators have not been used")
            cx.prove(loop.n <= g.zlen(), "every generator has an element for each iteration")
        super().enter(loop, locs)

    def at(self, g, k, name):
        if not cx.int_eq(self.eng.cursors[id(g)][1], k):
            raise Unsupported(name)

    def state(self, loop, k):
        for g in self.gens:
            self.eng.cursors[id(g)][1] = k
        return super().state(loop, k)

    def check(self, loop, locs, k):
        for g in self.gens:
            self.at(g, k, "one element of each generator is used per iteration")
        super().check(loop, locs, k)

    def same(self, a, b):
        if isinstance(b, tuple) and (not isinstance(a, tuple) or len(a) != len(b)):
            raise V.Refuted(self.name, "not one element of each generator")
        super().same(a, b)


class PerOwner:
    """contract of a loop over the arrays of a tensor, by the tensor"""
    owns = True

    def __init__(self, others, field, fam, spec):
        self.specs = (others.specs if others else []) + [(field, fam(), spec)]

    def enter(self, loop, locs):
        for v in locs.values():
            for field, fam, spec in self.specs:
                s = getattr(v, field, None)
                if s is not None and V.seq_of(s).at(z3.IntVal(0)).body.t[0].at[0].fam is fam:
                    loop.spec = spec
                    spec.enter(loop, locs)
                    return
        raise Unsupported("another tensor")


class PerTensor:
    """contract of a sketching loop by the summand that is sketched, or its transpose: the one whose cores have the family of the case"""
    owns = True

    def __init__(self, others, case, spec):
        self.specs = (others.specs if isinstance(others, PerTensor) else []) + [(case, spec)]

    def enter(self, loop, locs):
        for v in locs.values():
            s = getattr(v, "cores", None)
            if s is None or any(v is q.D.drm for _, p in self.specs for q in p.specs):
                continue
            c = V.seq_of(s).at(z3.IntVal(0))
            for case, spec in self.specs:
                if c.body.t[0].at[0].fam is case.fam:
                    spec.enter(loop, locs)
                    return
        raise Unsupported("sketch of another tensor")


GENERATORS = {"handle_transpose.wrapper"}


def contracts(e, method, left, right, *, psi):
    """left, right: contracts of the sweeps with the two DRMs"""
    ms = {type(s.D.drm).__name__ + "." + method for s in (left, right)}
    e.eng.eager = set(GENERATORS) | ms
    e.eng.loops = {m: PerDRM(left, right) for m in ms}
    e.eng.loops[("general_sketch", 1)] = Inv(elem=psi)


class OrthSketch(Inv):
    """the cores of an orthogonal or HMT sketch: core j < d-1 is left-orthogonal with ranks q(j), q(j+1), the last one is last()"""

    def __init__(self, e, o, q, last, name="O"):
        self.e, self.o, self.q, self.last = e, o, q, last
        self.name = "cores of the sketch"
        self.cores = Cores(o, name, q, label=False)
        self.known = z3.IntVal(0)
        self.acc, self.live, self.elem = None, None, self.new
        f = self.cores.fam
        cx.rules.append(T.PairRule(f, (0, 1), f, (0, 1), lambda pa, pb: cx.int_eq(pa[0], pb[0]) and cx.valid(z3.And(pa[0] >= 0, pa[0] < self.known)),
                                   lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "left-orthogonal", size=lambda pa, pb: S(q(pa[0]) * o.n(S(pa[0])))))

    def new(self, k):
        k = S(k)
        return self.last() if cx.decide(k == self.o.d - 1) else self.cores.core(k)

    def state(self, loop, k):
        self.known = k if loop.mode == "step" else S(self.o.d - 1)
        return super().state(loop, k)

    def check(self, loop, locs, k):
        j = S(k - 1)
        x = self.last_appended(loop, locs)
        if cx.decide(j == self.o.d - 1):
            self.same(x, self.last())
            return
        e = self.e
        e.ieq("new core has three axes", len(x.axes), 3)
        e.ieq("left rank of the new core", x.shape[0], mk(self.q(j)))
        e.ieq("mode size of the new core", x.shape[1], mk(self.o.n(j)))
        e.ieq("right rank of the new core", x.shape[2], mk(self.q(k)))
        e.eq("new core left-orthogonal", e.np.einsum("aib,aic->bc", x, x), e.np.eye(x.shape[2]))


def growing_drm(e, sw, rank, x, full):
    """contract of OrthogTTDRM: after core k-1 has been added, the k-th item is the contraction full(k) of the tensor with the cores added so far"""
    class OrthogTTDRM:
        def __init__(self, r, tensor):
            if tensor is not x:
                raise Unsupported("left cores for another tensor")
            V.agrees(r, lambda k: rank(k + 1), S(sw.o.d - 1), "rank")
            self.at = None

        def add_core(self, c):
            if self.at is not None:
                raise Unsupported("two cores added at once")
            t = c.body.t
            if len(t) != 1 or len(t[0].at) != 1 or t[0].at[0].fam is not sw.cores.fam:
                raise Unsupported("other core added")
            k = t[0].at[0].params[0]
            if not A.arr_eq(c, sw.cores.core(k))[0]:
                raise Unsupported("other core added")
            self.at = S(k + 1)

        def __next__(self):
            if self.at is None:
                raise Unsupported("item asked for before a core is added")
            k, self.at = self.at, None
            return full(k)
    e.dispatch.OrthogTTDRM = OrthogTTDRM
    V.snp.trust("sketch_dispatch.OrthogTTDRM: item k of the running sketch depends on the cores 0..k-1 only")
