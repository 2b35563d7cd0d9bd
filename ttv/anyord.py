"""Tensors of symbolic order: shapes, cores and rank sequences given by uninterpreted functions of the mode number, ghost
partial products defined by recursion over the modes, and loop contracts over them."""
from __future__ import annotations
import z3
from . import arr as A, term as T, snp
from .arr import Arr, Star, new_axis, pcs
from .core import cx, Z, mk, prod_fn, Unsupported, Refuted, SymInt
from .loader import Poison
from .seqs import Seq, Gen, mkseq, shape_seq, of as seq_of
from .term import Expr, Term, Atom, Family, Fac, Var


def S(z):
    return z3.simplify(Z(z))


def lit(z):
    return z3.is_int_value(z) and abs(z.as_long()) <= 8


class Order:
    """d modes of sizes n(0), ..., n(d-1)"""

    def __init__(self, e, base="n", lo=2, name="d", small=True, like=None):
        cx.opaque["loose"] = True           # the counterexamples of these contracts are found by the contracts of fixed order
        self.e, self.base = e, base
        dd = e.size(name, lo=lo) if like is None else None
        if like is not None:
            self.d = like.d
        elif not small:       # order lo is left to the contracts of fixed order
            cx.assume(Z(dd) > lo)
            self.d = Z(dd)
        elif cx.choose(2, "order") == 0:      # the smallest order apart: its loops over inner modes are empty
            cx.assume(Z(dd) == lo)
            self.d = z3.IntVal(lo)
        else:
            cx.assume(Z(dd) > lo)
            self.d = Z(dd)
        self.n = prod_fn(base)[1]
        cx.opaque.setdefault("positive", set()).add(f"n<{base}>")
        self.shape = shape_seq(base, z3.IntVal(0), self.d)

    def mode(self, k):
        """axis of mode k"""
        return new_axis(self.n(S(k)), mode=(self.base, S(k)))

    def block(self, lo, hi, rev=False):
        """index variables of modes lo..hi-1"""
        f = T.known_single(Fac(iv=(self.base, S(lo), S(hi), rev)))
        return (Var(f),) if f is not None else ()

    def rank(self, name):
        return Rank(self, name)


class Rank:
    """ranks r(1), ..., r(d-1); r(0) = r(d) = 1"""

    def __init__(self, o, name):
        self.o = o
        self.f = z3.Function(name, z3.IntSort(), z3.IntSort())
        cx.opaque.setdefault("positive", set()).add(name)

    def __call__(self, k):
        k = S(k)
        if cx.int_eq(k, 0) or cx.int_eq(k, self.o.d):
            return z3.IntVal(1)
        return self.f(k)

    def seq(self, rev=False, kind="tuple"):
        """(r(1), ..., r(d-1))"""
        return mkseq([Gen(z3.IntVal(1), self.o.d, lambda k: mk(self(k)), rev, ("f", self.f.name()))], kind)


class Cores:
    """cores of a train: family X(k)[a | i_k | b], a < r(k), b < r(k+1)"""

    def __init__(self, o, name, rank, label=True):
        self.o, self.name, self.r = o, name, rank
        self.fam = Family(name)
        self.store = {}
        self.label = f"the input {name}" if label else name
        self.frozen = label

    def slots(self, k):
        return new_axis(self.r(k)), self.o.mode(k), new_axis(self.r(S(k) + 1))

    def core(self, k):
        k = S(k)
        key = k.sexpr()
        if key not in self.store:
            self.store[key] = A.Store(self.label, self.frozen)
        ax = self.slots(k)
        return Arr(list(ax), Expr([Term(1, at=(Atom(self.fam, (k,), [pcs(x) for x in ax]),))]), store=self.store[key])

    def list(self):
        d = self.o.d
        return mkseq([("e", self.core(0)), Gen(z3.IntVal(1), z3.simplify(d - 1), self.core), ("e", self.core(d - 1))], "list")


def _end_mode(I, k, low, back):
    """takes mode k off one end of the multi-index I: (I', piece) or None.  I lists its modes upwards or (transposed) downwards"""
    I = list(I)
    while I:
        p = I[-1] if back else I[0]
        b = T.piece_bounds(p)
        if b is None:
            return None
        rest = I[:-1] if back else I[1:]
        if p[0] != "z" and cx.int_eq(b[0], b[1]):
            I = rest
            continue
        if p[0] == "z" and cx.int_eq(b[0], k):
            return tuple(rest), p
        if p[0] == "g" and p[4] == (low == back) and cx.int_eq(b[0] if low else b[1] - 1, k):
            x, y = T.split_g(p, S(k + 1) if low else S(k))
            if not back:
                x, y = y, x
            return (tuple(rest) + (x,) if back else (x,) + tuple(rest)), y
        return None
    return None


def last_mode(I, base, k):
    """splits off mode k, the highest"""
    return _end_mode(I, k, False, True) or _end_mode(I, k, False, False)


def first_mode(I, base, k):
    s = _end_mode(I, k, True, False) or _end_mode(I, k, True, True)
    return s and (s[1], s[0])


def prefix(o, cores, name):
    """P(k)[I | b]: product of cores 0..k-1;  P(0) = 1, P(k+1)[I,i | b] = sum_a P(k)[I | a] X(k)[a,i,b]"""
    fam = Family(name)

    def unfold(par, slots):
        k = S(par[0])
        I, b = slots
        if cx.int_eq(k, 0):
            return T.const(1)
        k1 = S(k - 1)
        s = last_mode(I, o.base, k1)
        if s is None:
            return None
        J, p = s
        a = new_axis(cores.r(k1))
        at = (Atom(cores.fam, (k1,), (pcs(a), (p,), b)),)
        if not cx.int_eq(k1, 0):
            at = (Atom(fam, (k1,), (J, pcs(a))),) + at
        return Expr([Term(1, bv=a, at=at)])
    fam.unfold = unfold
    fam.meta = dict(group=name, dir=1, idx=lambda p: p[0], isbase=lambda p: lit(p[0]) or cx.int_eq(p[0], 0) or cx.int_eq(p[0], 1),
                    cuts=lambda p: {o.base: [S(p[0] - 1)]})

    def arr(k):
        k = S(k)
        I, b = o.block(0, k), new_axis(cores.r(k))
        return Arr([Star(I), b], Expr([Term(1, at=(Atom(fam, (k,), (pcs(I), pcs(b))),))])).fresh()
    arr.fam = fam
    arr.step = lambda k: link(arr(k), cores.core(k))       # P(k+1), unfolded
    arr.dense = lambda: drop1(arr(o.d))
    return arr


def drop1(a):
    """without the axes of size one"""
    a = a.fresh()
    return Arr([x for x in a.axes if isinstance(x, Star) or x], a.body)


def suffix(o, cores, name):
    """Q(k)[a | I]: product of cores k..d-1;  Q(d) = 1, Q(k)[a | i,I] = sum_b X(k)[a,i,b] Q(k+1)[b | I]"""
    fam = Family(name)

    def unfold(par, slots):
        k = S(par[0])
        a, I = slots
        if cx.int_eq(k, o.d):
            return T.const(1)
        s = first_mode(I, o.base, k)
        if s is None:
            return None
        p, J = s
        b = new_axis(cores.r(k + 1))
        at = (Atom(cores.fam, (k,), (a, (p,), pcs(b))),)
        if not cx.int_eq(k + 1, o.d):
            at += (Atom(fam, (S(k + 1),), (pcs(b), J)),)
        return Expr([Term(1, bv=b, at=at)])
    fam.unfold = unfold
    fam.meta = dict(group=name, dir=-1, idx=lambda p: p[0], isbase=lambda p: lit(S(o.d - p[0])) or cx.int_eq(p[0], o.d) or cx.int_eq(p[0] + 1, o.d),
                    cuts=lambda p: {o.base: [S(p[0] + 1)]})

    def arr(k):
        k = S(k)
        a, I = new_axis(cores.r(k)), o.block(k, o.d)
        return Arr([a, Star(I)], Expr([Term(1, at=(Atom(fam, (k,), (pcs(a), pcs(I))),))])).fresh()
    arr.fam = fam
    arr.step = lambda k: link(cores.core(k), arr(S(k) + 1))       # Q(k), unfolded
    return arr


def opaque_dense(o, name):
    I = o.block(0, o.d)
    return Arr([Star(I)], Expr([Term(1, at=(Atom(Family(name), (), (pcs(I),)),))]), store=A.Store(f"the input {name}", True))


# ------------------------------------------------------------------ loop contracts
def is_list(x):
    return isinstance(x, list) or (isinstance(x, Seq) and x.kind == "list")


class Inv:
    """acc(k): the array that the loop carries, after k iterations (before the loop: k = 0)
    live(k): the carried array that is unbound before the loop (k >= 1)
    elem(j): what iteration j appends to the list that the loop extends"""

    owns = True       # every object that the loop changes is one of these

    def __init__(self, acc=None, elem=None, live=None, name="loop invariant"):
        self.acc, self.elem, self.live, self.name = acc, elem, live, name

    def roles(self, loop, locs):
        bound = [x for x in loop.carried if x in locs and type(locs[x]) is not Poison]
        unbound = [x for x in loop.carried if x not in bound]
        lists = [x for x in loop.mutated if x in locs and is_list(locs[x])]
        other = [x for x in loop.mutated if x not in lists and x in locs]

        def one(xs, want, what):
            if not want:
                if xs:
                    raise Unsupported(f"{what} {xs} of loop {loop.ordinal} of {loop.qual} is not in its contract")
                return None
            if len(xs) != 1:
                raise Unsupported(f"{what} of loop {loop.ordinal} of {loop.qual}: {xs}")
            return xs[0]
        loop.r_acc = one(bound, self.acc, "carried variable")
        if isinstance(self.live, tuple):
            if len(unbound) != len(self.live):
                raise Unsupported(f"unbound carried variables {unbound} of loop {loop.ordinal} of {loop.qual}")
            loop.r_live = tuple(unbound)
        else:
            loop.r_live = one(unbound, self.live, "unbound carried variable")
        loop.r_list = one(lists, self.elem, "extended list")
        if other:
            raise Unsupported(f"loop changes {other}")

    def enter(self, loop, locs):
        self.roles(loop, locs)
        if loop.r_list:
            loop.l0 = list(seq_of(locs[loop.r_list]).parts)
        if self.acc:
            self._value(loop, locs, loop.r_acc, self.acc(z3.IntVal(0)))

    def state(self, loop, k):
        env = {}
        if self.acc:
            env[loop.r_acc] = self.acc(k)
        if self.live and not cx.decide(k == 0):
            for x, f in zip(loop.r_live, self.live) if isinstance(self.live, tuple) else ((loop.r_live, self.live),):
                env[x] = f(k)
        if self.elem:
            loop.seg = Gen(z3.IntVal(0), k, self.elem)
            env[loop.r_list] = mkseq(loop.l0 + [loop.seg], "list") if loop.mode == "exit" else Seq(loop.l0 + [loop.seg], "list")
        return env

    def check(self, loop, locs, k):
        if self.acc:
            self._value(loop, locs, loop.r_acc, self.acc(k))
        if self.live:
            self._value(loop, locs, loop.r_live, self.live(k))
        if self.elem:
            self.appended(loop, locs, self.last_appended(loop, locs), z3.simplify(k - 1))

    def last_appended(self, loop, locs):
        got = locs.get(loop.r_list)
        n0 = len(loop.l0)
        if not isinstance(got, Seq) or len(got.parts) != n0 + 2 and not (len(got.parts) == n0 + 1 and cx.int_eq(loop.k, 0)):
            raise Refuted(self.name, "not one element is appended per iteration")
        return got.parts[-1][1]

    def appended(self, loop, locs, x, j):
        self.same(x, self.elem(j))

    def same(self, a, b):
        if isinstance(b, (Arr, A.SymScalar)) or isinstance(a, Arr):
            ok, why = A.arr_eq(a, b)
            if not ok:
                T.differ()
                raise Refuted(self.name, why)
        elif isinstance(b, tuple):
            for x, y in zip(a, b):
                self.same(x, y)
        else:
            cx.prove(Z(a) == Z(b), self.name)
        cx.stats.add(self.name, "tensor normaliser + z3")

    def _value(self, loop, locs, x, want):
        got = locs.get(x)
        if type(got) is Poison or got is None:
            raise Unsupported("carried variable")
        self.same(got, want)


# ------------------------------------------------------------------ helpers of the contracts
def generic(lo, hi):
    """a generic index lo <= k < hi, on a path of its own"""
    k = z3.Int(cx.fresh("k"))
    cx.assume(z3.And(k >= lo, k < hi))
    return k


def each(e, name, seq, want, n, fork=False):
    """element k of the list is want(k), for every 0 <= k < n; the list has n elements"""
    s = seq_of(seq)
    e.ieq(name + ": length", mk(s.zlen()), mk(S(n)))
    if fork and cx.choose(2, ("each", name)) == 1:
        return
    k = generic(0, S(n))
    got = s.at(k)
    w = want(k)
    if isinstance(w, tuple):
        e.true(name + ": as many arrays", isinstance(got, tuple) and len(got) == len(w))
        for i, (x, y) in enumerate(zip(got, w)):
            e.eq(f"{name}, array {i}", x, y)
    elif isinstance(w, Arr):
        e.eq(name, got, w)
    else:
        e.ieq(name, got, mk(Z(w)))
    if fork:
        from .core import PathDone
        raise PathDone()


def ints(e, name, seq, want, n, le=False):
    s = seq_of(seq)
    e.ieq(name + ": length", mk(s.zlen()), mk(S(n)))
    c = cx.choose(2, ("ints", name))
    if c == 0:
        k = generic(0, S(n))
        if le:
            e.true(name, mk(Z(s.at(k))) <= mk(Z(want(k))))
        else:
            e.ieq(name, s.at(k), mk(Z(want(k))))
        from .core import PathDone
        raise PathDone()


def swapped(c):
    return c.transpose((2, 1, 0))


def flip(a):
    """axes (and modes) in the opposite order"""
    return A.flip(a.fresh())


def lemma_split(e, o, X, P, Q):
    """P(k) Q(k) is the same for every 0 <= k <= d (induction over k; the step is an obligation)"""
    from .core import PathDone
    if cx.choose(2, "lemma") == 1:
        return
    k = generic(0, o.d)
    cx.decide(k == 0)
    cx.decide(k == o.d - 1)
    e.eq("lemma: the product of all cores does not depend on where it is split", link(P(k), Q(k)), link(P(k + 1), Q(k + 1)))
    raise PathDone()


def link(a, b):
    """sum over the last axis of a and the first of b"""
    a, b = a.fresh(), b.fresh()
    com, m1, m2 = A.unify(a.axes[-1], b.axes[0])
    return Arr(list(a.axes[:-1]) + list(b.axes[1:]), T.sum_over(T.mul(T.subst(a.body, m1), T.subst(b.body, m2)), com)).fresh()


def blockdiag(a, b):
    a, b = a.fresh(), b.fresh()
    z1 = A.zeros((a.shape[0], a.shape[1], b.shape[2]))
    z2 = A.zeros((b.shape[0], a.shape[1], a.shape[2]))
    return A.concatenate([A.concatenate([a, z1], axis=2), A.concatenate([z2, b], axis=2)], axis=0)


def gram(a, b):
    """sum over all index blocks:  a[I,x] b[I,y]"""
    a, b = a.fresh(), b.fresh()
    com, m1, m2 = A.unify(a.axes[0].vs, b.axes[0].vs)
    return Arr([a.axes[1], b.axes[1]], T.sum_over(T.mul(T.subst(a.body, m1), T.subst(b.body, m2)), com)).fresh()


def full_dot(a, b):
    a, b = a.fresh(), b.fresh()
    com, m1, m2 = A.unify(a.allvars(), b.allvars())
    return A.SymScalar(T.sum_over(T.mul(T.subst(a.body, m1), T.subst(b.body, m2)), com))


def beside(a, b):
    return A.concatenate([a, b], axis=1)


# ------------------------------------------------------------------ sweeps that orthogonalise
class OrthSweep(Inv):
    """left-to-right sweep: new core j (j < d-1) is left-orthogonal, and (new core j) R(j+1) = R(j) X(j), R(0) = 1; the last new core is R(d-1) X(d-1).
    Nothing else is known about the new cores, their ranks and R."""

    def __init__(self, e, o, X, name="O", rank="q"):
        self.e, self.o, self.X = e, o, X
        self.name = "orthogonalization sweep"
        self.q = Rank(o, rank)
        self.fq, self.fr = Family(name), Family("R" + name)
        self.fam = self.fq
        self.r = self.q
        self.known = z3.IntVal(0)
        self.acc, self.elem, self.live = None, self.new, self.carry
        # q(k+1) <= min(q(k) n(k), r(k+1)): an obligation of every iteration
        d = o.d

        def fact(a, x):
            k = S(a - 1)
            prev = z3.If(k == 0, z3.IntVal(1), self.q.f(k))
            return z3.Implies(z3.And(a >= 1, a <= d - 1), z3.And(x <= prev * o.n(k), x <= X.r.f(a)))
        cx.opaque.setdefault("facts", {})[rank] = fact

        def rel(pa, pb, ra, rb):
            return self._step(pa[0], ra, rb)
        cx.rules.append(T.PairRule(self.fq, (0, 1), self.fq, (0, 1), lambda pa, pb: cx.int_eq(pa[0], pb[0]) and cx.valid(z3.And(pa[0] >= 0, pa[0] < self.known)),
                                   lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "new core left-orthogonal", size=lambda pa, pb: S(self.q(pa[0]) * o.n(S(pa[0])))))
        cx.rules.append(T.PairRule(self.fq, (2,), self.fr, (0,), lambda pa, pb: cx.int_eq(pa[0] + 1, pb[0]) and cx.valid(z3.And(pa[0] >= 0, pa[0] < self.known)),
                                   rel, "new core times R", size=lambda pa, pb: S(self.q(pb[0]))))

    def _step(self, k, ra, rb):
        """(R(k) X(k)) [a, i, b]"""
        k = S(k)
        a, i = ra
        b, = rb
        if cx.int_eq(k, 0):
            return Expr([Term(1, at=(Atom(self.X.fam, (k,), (a, i, b)),))])
        c = new_axis(self.X.r(k))
        return Expr([Term(1, bv=c, at=(Atom(self.fr, (k,), (a, pcs(c))), Atom(self.X.fam, (k,), (pcs(c), i, b))))])

    def carry(self, k):
        k = S(k)
        a, b = new_axis(self.q(k)), new_axis(self.X.r(k))
        return Arr([a, b], Expr([Term(1, at=(Atom(self.fr, (k,), (pcs(a), pcs(b))),))])).fresh()

    def times(self, k):
        """R(k) X(k)"""
        ax = [new_axis(self.q(k)), self.o.mode(S(k)), new_axis(self.X.r(S(k) + 1))]
        return Arr(ax, self._step(k, [pcs(ax[0]), pcs(ax[1])], [pcs(ax[2])])).fresh()

    def new(self, k):
        k = S(k)
        if cx.decide(k == self.o.d - 1):
            return self.times(k)
        ax = [new_axis(self.q(k)), self.o.mode(k), new_axis(self.q(S(k) + 1))]
        return Arr(ax, Expr([Term(1, at=(Atom(self.fq, (k,), [pcs(x) for x in ax]),))])).fresh()

    def core(self, k):
        return self.new(k)

    def state(self, loop, k):
        self.known = k if loop.mode == "step" else S(self.o.d - 1)
        env = super().state(loop, k)
        if loop.mode == "exit":
            env.pop(loop.r_live, None)      # R(d) is never made
        return env

    def check(self, loop, locs, k):
        j = z3.simplify(k - 1)
        x = self.last_appended(loop, locs)
        if cx.decide(j == self.o.d - 1):
            self.same(x, self.times(j))
            return
        self.made(x, locs.get(loop.r_live), j)

    def made(self, x, R, j):
        e, o = self.e, self.o
        np = e.np
        n = len(x.axes)
        e.ieq("new core has three axes", n, 3)
        e.ieq("left rank of the new core", x.shape[0], mk(self.q(j)))
        e.ieq("mode size of the new core", x.shape[1], mk(o.n(j)))
        e.ieq("R has as many columns as the next core rows", R.shape[1], mk(self.X.r(j + 1)))
        e.ieq("R has as many rows as the new core columns", R.shape[0], x.shape[2])
        e.true("rank at most the number of rows and columns", z3.And(Z(x.shape[2]) <= self.q(j) * o.n(j), Z(x.shape[2]) <= self.X.r(j + 1)))
        k = x.shape[2]
        e.eq("new core left-orthogonal", np.einsum("aib,aic->bc", x, x), np.eye(k))
        e.eq("new core times R = R times the core", np.einsum("aib,bc->aic", x, R), self.times(j))


def lemma_orth(e, o, sw, P, PO):
    """(new cores 0..k-1) R(k) = (cores 0..k-1) for 0 <= k < d, by induction; afterwards a rule"""
    from .core import PathDone

    def rule(lim):
        def res(pa, pb, ra, rb):
            return Expr([Term(1, at=(Atom(P.fam, (S(pa[0]),), (ra[0], rb[0])),))])
        cx.rules.append(T.PairRule(PO.fam, (1,), sw.fr, (0,), lambda pa, pb: cx.int_eq(pa[0], pb[0]) and cx.valid(lim(pa[0])), res, "lemma", size=lambda pa, pb: S(sw.q(pb[0]))))
    if cx.choose(2, "lemma") == 0:
        k = generic(0, o.d - 1)
        sw.known = S(o.d - 1)
        cx.decide(k == 0)
        rule(lambda p: z3.And(p >= 0, p <= k))
        # with R(0) = 1
        e.eq("lemma: new cores times R = the cores", link(PO.step(k), sw.carry(k + 1)), P.step(k))
        raise PathDone()
    rule(lambda p: z3.And(p >= 0, p < o.d))


def left_orthogonal(o, cores):
    """the cores 0..d-2 are left-orthogonal"""
    d = o.d
    cx.rules.append(T.PairRule(cores.fam, (0, 1), cores.fam, (0, 1), lambda pa, pb: cx.int_eq(pa[0], pb[0]) and cx.valid(z3.And(pa[0] >= 0, pa[0] < d - 1)),
                               lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "left-orthogonal", size=lambda pa, pb: S(cores.r(pa[0]) * o.n(S(pa[0])))))


def right_orthogonal(o, cores, known):
    cx.rules.append(T.PairRule(cores.fam, (1, 2), cores.fam, (1, 2), lambda pa, pb: cx.int_eq(pa[0], pb[0]) and cx.valid(known(pa[0])),
                               lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "right-orthogonal", size=lambda pa, pb: S(o.n(S(pa[0])) * cores.r(S(pa[0] + 1)))))


class OrthInput:
    """contract of TensorTrain.orthogonalize (C07): a train of the same tensor and shape whose cores 0..d-2 are left-orthogonal, with
    ranks at most the product of the core's rows and at most the given ranks.  `of` is the tensor train it is expected to be called on"""

    def __init__(self, e, o, name="O", rank="q", of=None, r=None):
        self.e, self.o = e, o
        q = Rank(o, rank)
        self.cores = Cores(o, name, q, label=False)
        left_orthogonal(o, self.cores)
        self.calls = 0
        if of is not None:
            TT = e.tensor.TensorTrain

            def stub(x):
                if x is not of:
                    raise Unsupported("orthogonalize is called on another tensor train")
                self.calls += 1
                return TT(self.cores.list())
            TT.orthogonalize = stub


def agrees(s, want, n, what):
    """the arguments of a call are the expected ones (checked on a path of its own)"""
    from .core import PathDone
    s = seq_of(s)
    if not cx.valid(s.zlen() == n):
        raise Unsupported(f"length of the argument {what}")
    if cx.choose(2, ("argument", what)) == 0:
        k = generic(0, n)
        if not cx.valid(Z(s.at(k)) == Z(want(k))):
            raise Unsupported(f"other argument {what} than expected: {s.at(k)!r} instead of {want(k)!r}")
        raise PathDone()


def rank_contract(e, o, given, name="m", mod=None):
    """contract of process_tt_rank (C11): (d-1) ranks, positive, none above the given ones"""
    m = Rank(o, name)
    e.tt_rank_calls = 0

    def fact(a, x):
        return z3.Implies(z3.And(a >= 1, a <= o.d - 1), x <= Z(given(S(a))))
    cx.opaque.setdefault("facts", {})[name] = fact

    def stub(rank, shape, trim):
        e.tt_rank_calls += 1
        if trim is not True or not isinstance(shape, (Seq, tuple)):
            raise Unsupported("other use of process_tt_rank")
        agrees(shape, lambda k: o.n(k), o.d, "shape")
        if isinstance(rank, (SymInt, int)):
            agrees([rank], lambda k: given(z3.Int("any")), 1, "rank")
        else:
            agrees(rank, lambda k: given(k + 1), S(o.d - 1), "rank")
        return m.seq()
    (mod or e.tensor).process_tt_rank = stub
    return m


class RoundSweep(Inv):
    """right-to-left sweep over left-orthogonal cores: for C = O(mu) US(mu+1) (US(d) = 1), the new core V(mu), mu > 0, is right-orthogonal with
    rho(mu) = max(1, min(#{S > S_0 eps}, m(mu))) rows, US(mu) = C V(mu)^T, and |C|^2 - |US(mu)|^2 is the sum of the discarded squared
    singular values S of C.  The last element is O(0) US(1)."""

    def __init__(self, e, o, O, m, eps):
        self.e, self.o, self.O, self.m, self.eps = e, o, O, m, eps
        self.name = "truncation sweep"
        self.acc, self.elem, self.live = None, self.new, lambda k: self.carry(o.d - k)
        self.V = Cores(o, "V", Rank(o, "rho"), label=False)
        self.rho = self.V.r
        self.fu = Family("US")
        self.known = o.d
        right_orthogonal(o, self.V, lambda p: z3.And(p >= self.known, p >= 1, p < o.d))
        cx.opaque.setdefault("facts", {})["rho"] = lambda a, x: z3.Implies(z3.And(a >= 1, a <= o.d - 1), x <= m.f(a))

    def carry(self, k):
        k = S(k)
        a, b = new_axis(self.O.r(k)), new_axis(self.rho(k))
        return Arr([a, b], self.us(k, pcs(a), pcs(b))).fresh()

    def us(self, k, a, b):
        if cx.int_eq(k, self.o.d):
            return T.const(1)
        return Expr([Term(1, at=(Atom(self.fu, (S(k),), (a, b)),))])

    def times(self, k):
        """C = O(k) US(k+1)"""
        k = S(k)
        if cx.int_eq(k, self.o.d - 1):
            return self.O.core(k).fresh()
        return link(self.O.core(k), self.carry(k + 1))

    def new(self, j):
        k = S(self.o.d - 1 - j)
        if cx.decide(k == 0):
            return self.times(k)
        return self.V.core(k)

    def state(self, loop, k):
        self.known = S(self.o.d - k) if loop.mode == "step" else z3.IntVal(1)
        env = super().state(loop, k)
        if loop.mode == "exit":
            env.pop(loop.r_live, None)
        return env

    def check(self, loop, locs, k):
        j = z3.simplify(k - 1)
        x = self.last_appended(loop, locs)
        mu = S(self.o.d - 1 - j)
        if cx.decide(mu == 0):
            self.same(x, self.times(mu))
            return
        e, o = self.e, self.o
        np = e.np
        US = locs.get(loop.r_live)
        C = self.times(mu)
        U, Sg, V = np.linalg.svd(C.reshape(C.shape[0], C.shape[1] * C.shape[2]), full_matrices=False)
        r = e.max(1, e.min(e.count_above(Sg, self.eps), mk(self.m(mu))))
        e.ieq("rank: the singular values above the threshold, up to the maximum rank, at least one", x.shape[0], r)
        e.true("rank at most the maximum rank", Z(x.shape[0]) <= self.m(mu))
        e.ieq("mode size of the new core", x.shape[1], mk(o.n(mu)))
        e.ieq("right rank of the new core", x.shape[2], mk(self.rho(mu + 1)))
        e.ieq("rows of the carried factor", US.shape[0], mk(self.O.r(mu)))
        e.ieq("columns of the carried factor", US.shape[1], x.shape[0])
        e.eq("new core right-orthogonal", np.einsum("aib,cib->ac", x, x), np.eye(x.shape[0]))
        e.eq("carried factor: the core projected on the new core", np.einsum("aib,cib->ac", C, x), US)
        e.seq("squared norm lost in this step: the discarded singular values", np.sum(C * C) - np.sum(US * US),
              np.sum(Sg * Sg) - np.sum(Sg[:r] * Sg[:r]))


def lemma_round(e, o, O, sw):
    """consequences of the invariants of RoundSweep, by induction over the bonds from the right; S(k) = O(k)...O(d-1), Y(k) = V(k)...V(d-1)"""
    from .core import PathDone
    Sx, Sy = suffix(o, O, "SO"), suffix(o, sw.V, "SV")
    d = o.d

    def facts(lo):
        inr = lambda p: z3.And(p >= lo, p <= d)
        cx.rules.append(T.PairRule(Sx.fam, (1,), Sy.fam, (1,), lambda pa, pb: cx.int_eq(pa[0], pb[0]) and cx.valid(inr(pa[0])),
                                   lambda pa, pb, ra, rb: sw.us(pa[0], ra[0], rb[0]), "S(k) Y(k)^T = US(k)"))
        cx.rules.append(T.PairRule(Sy.fam, (1,), Sy.fam, (1,), lambda pa, pb: cx.int_eq(pa[0], pb[0]) and cx.valid(inr(pa[0])),
                                   lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "Y(k) Y(k)^T = 1"))
    sw.known = z3.IntVal(1)
    if cx.choose(2, "lemma") == 0:
        k = generic(1, d)
        cx.decide(k == d - 1)
        facts(S(k + 1))
        x, y, US1 = Sx.step(k), Sy.step(k), sw.times(k)
        e.eq("lemma: S(k) Y(k)^T = O(k) US(k+1) V(k)^T", rows_dot(x, y), e.np.einsum("aib,cib->ac", US1, sw.V.core(k)))
        e.eq("lemma: the product of right-orthogonal cores has orthonormal rows", rows_dot(y, y), e.np.eye(mk(sw.rho(k))))
        if not cx.int_eq(k, d - 1):
            z = Sx(k + 1)
            e.seq("lemma: |S(k)| = |S(k+1)|", full_dot(x, x), full_dot(z, z))
            c = sw.carry(k + 1)
            e.seq("lemma: |O(k) US(k+1)| = |US(k+1)|", full_dot(US1, US1), full_dot(c, c))
        raise PathDone()
    facts(z3.IntVal(1))
    return Sx, Sy


def rows_dot(a, b):
    """[x, y]: sum over everything but the first axis"""
    a, b = a.fresh(), b.fresh()
    va = [v for x in a.axes[1:] for v in (x.vs if isinstance(x, Star) else x)]
    vb = [v for x in b.axes[1:] for v in (x.vs if isinstance(x, Star) else x)]
    com, m1, m2 = A.unify(va, vb)
    return Arr([a.axes[0], b.axes[0]], T.sum_over(T.mul(T.subst(a.body, m1), T.subst(b.body, m2)), com)).fresh()


class Having:
    def __init__(self, M):
        self.M = M

    def swept(self, k):
        m = self.M(k)
        return Arr([x.vs if isinstance(x, Star) else x for x in m.axes], m.body)

    def sketch(self, k):
        m = self.swept(k)
        return Arr([m.axes[1], m.axes[0]], m.body)


def lemma_left(e, o, O, until=None):
    """the product of left-orthogonal cores 0..k-1 has orthonormal columns, k < d, by induction"""
    from .core import PathDone
    PO = prefix(o, O, "PO")

    def fact(hi):
        cx.rules.append(T.PairRule(PO.fam, (0,), PO.fam, (0,), lambda pa, pb: cx.int_eq(pa[0], pb[0]) and cx.valid(z3.And(pa[0] >= 0, pa[0] <= hi)),
                                   lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "orthonormal columns"))
    if cx.choose(2, "lemma") == 0:
        if until is not None:
            until.known = S(o.d - 1)
        k = generic(0, o.d - 1)
        cx.decide(k == 0)
        fact(k)
        x = PO.step(k)
        e.eq("lemma: the product of left-orthogonal cores has orthonormal columns", cols_dot(x, x), e.np.eye(mk(O.r(k + 1))))
        raise PathDone()
    fact(S(o.d - 1))
    return PO


def cols_dot(a, b):
    a, b = a.fresh(), b.fresh()
    va = [v for x in a.axes[:-1] for v in (x.vs if isinstance(x, Star) else x)]
    vb = [v for x in b.axes[:-1] for v in (x.vs if isinstance(x, Star) else x)]
    com, m1, m2 = A.unify(va, vb)
    return Arr([a.axes[-1], b.axes[-1]], T.sum_over(T.mul(T.subst(a.body, m1), T.subst(b.body, m2)), com)).fresh()


class SvdSweep(Inv):
    """right-to-left sweep over left-orthogonal cores: C(k) = O(k) U(k+1) diag(S(k+1)) (C(d-1) = O(d-1)) has the singular value decomposition
    U(k) diag(S(k)) V(k), k > 0, as a matrix with the rows of O(k); C(0) has it as a matrix with the columns of U(1).  List element d-1-k is S(k)."""

    def __init__(self, e, o, O):
        self.e, self.o, self.O = e, o, O
        self.name = "sweep of singular value decompositions"
        self.s = Rank(o, "s")
        self.s0 = z3.Int("s0")
        cx.assume(self.s0 >= 1)
        self.V = Cores(o, "V", self.s, label=False)
        self.fu, self.fs = Family("U"), Family("S")
        self.fu0, self.fs0, self.fv0 = Family("U0"), Family("S0"), Family("V0")
        self.acc, self.elem = None, self.new
        self.live = (lambda t: self.U(o.d - t), lambda t: self.S(o.d - t))
        self.known = o.d
        ok = lambda p: z3.And(p >= self.known, p >= 1, p < o.d)
        right_orthogonal(o, self.V, ok)
        cx.rules.append(T.PairRule(self.fu, (0,), self.fu, (0,), lambda pa, pb: cx.int_eq(pa[0], pb[0]) and cx.valid(ok(pa[0])),
                                   lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "U'U=I", size=lambda pa, pb: S(O.r(pa[0]))))

    def U(self, k):
        k = S(k)
        a, b = new_axis(self.O.r(k)), new_axis(self.s(k))
        return Arr([a, b], Expr([Term(1, at=(Atom(self.fu, (k,), (pcs(a), pcs(b))),))])).fresh()

    def S(self, k):
        k = S(k)
        a = new_axis(self.s(k))
        return Arr([a], Expr([Term(1, at=(Atom(self.fs, (k,), (pcs(a),)),))])).fresh()

    def US(self, k):
        return self.U(k) * self.S(k)

    def C(self, k):
        k = S(k)
        if cx.int_eq(k, self.o.d - 1):
            return self.O.core(k).fresh()
        return link(self.O.core(k), self.US(k + 1))

    def zero(self):
        """the decomposition of C(0)"""
        n, s0, s1 = self.o.mode(z3.IntVal(0)), new_axis(mk(self.s0)), new_axis(self.s(z3.IntVal(1)))
        U = Arr([n, s0], Expr([Term(1, at=(Atom(self.fu0, (), (pcs(n), pcs(s0))),))])).fresh()
        Sg = Arr([s0], Expr([Term(1, at=(Atom(self.fs0, (), (pcs(s0),)),))])).fresh()
        V = Arr([s0, s1], Expr([Term(1, at=(Atom(self.fv0, (), (pcs(s0), pcs(s1))),))])).fresh()
        return U, Sg, V

    def new(self, j):
        k = S(self.o.d - 1 - j)
        if cx.decide(k == 0):
            return self.zero()[1]
        return self.S(k)

    def state(self, loop, k):
        self.known = S(self.o.d - k) if loop.mode == "step" else z3.IntVal(1)
        env = super().state(loop, k)
        if loop.mode == "exit":
            for x in loop.r_live:
                env.pop(x, None)
        return env

    def check(self, loop, locs, k):
        e = self.e
        np = e.np
        x = self.last_appended(loop, locs)
        mu = S(self.o.d - k)
        C = self.C(mu)
        if cx.decide(mu == 0):
            M = C.reshape(C.shape[0] * C.shape[1], C.shape[2])
        else:
            M = C.reshape(C.shape[0], C.shape[1] * C.shape[2])
        U, Sg, V = np.linalg.svd(M, full_matrices=False)      # the certificate: U, S, V of the state are these
        e.eq("the list holds the singular values of the core", x, Sg)
        if not cx.decide(mu == 0):
            gu, gs = (locs.get(n) for n in loop.r_live)
            e.eq("carried singular vectors and values", gu @ np.diag(gs), U @ np.diag(Sg))


def lemma_svd(e, o, O, sw):
    """O(k) ... O(d-1) = U(k) diag(S(k)) W(k) with W(k) = V(k) ... V(d-1), by induction from the right; W(k) has orthonormal rows"""
    from .core import PathDone
    W, Q = suffix(o, sw.V, "W"), suffix(o, O, "QO")
    sw.known = z3.IntVal(1)

    def facts(lo):
        cx.rules.append(T.PairRule(W.fam, (1,), W.fam, (1,), lambda pa, pb: cx.int_eq(pa[0], pb[0]) and cx.valid(z3.And(pa[0] >= lo, pa[0] <= o.d)),
                                   lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "orthonormal rows"))
    if cx.choose(2, "lemma") == 0:
        k = generic(1, o.d)
        if cx.decide(k == o.d - 1):
            e.eq("lemma: the last core is C(d-1)", Q.step(k), link(sw.C(k), W(k + 1)))
        else:
            # Q(k+1) = U S W(k+1) gives Q(k) = O(k) U S W(k+1) = C(k) W(k+1)
            e.eq("lemma: step of the decomposition", link(O.core(k), link(sw.US(k + 1), W(k + 1))), link(sw.C(k), W(k + 1)))
        # C(k) = U S V gives C(k) W(k+1) = U S W(k)
        e.eq("lemma: step of the decomposition (2)", link(link(sw.US(k), sw.V.core(k)), W(k + 1)), link(sw.US(k), W.step(k)))
        facts(S(k + 1))
        x = W.step(k)
        e.eq("lemma: W(k) has orthonormal rows", rows_dot(x, x), e.np.eye(mk(sw.s(k))))
        raise PathDone()
    facts(z3.IntVal(1))
    return W, Q


class TtSvdSweep(Inv):
    """left-to-right sweep over T(k)[a | i_k | I_{>k}], T(0) = the tensor: the new core U(k) is left-orthogonal with
    s(k+1) = max(1, min(number of singular values of T(k), m(k+1))) columns, T(k+1) = U(k)^T T(k), and |T(k)|^2 - |T(k+1)|^2 is the sum of the
    discarded squared singular values.  The first step is before the loop."""

    def __init__(self, e, o, m, lo_rank=None):
        self.e, self.o, self.m = e, o, m
        self.name = "sweep of truncated singular value decompositions"
        self.s = Rank(o, "s")
        self.U = Cores(o, "U", self.s, label=False)
        self.ft = Family("T")
        self.known = o.d
        self.Y = None
        d = o.d
        ok = lambda p: z3.And(p >= 0, p < self.known, p < d - 1)
        cx.rules.append(T.PairRule(self.U.fam, (0, 1), self.U.fam, (0, 1), lambda pa, pb: cx.int_eq(pa[0], pb[0]) and cx.valid(ok(pa[0])),
                                   lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "left-orthogonal", size=lambda pa, pb: S(self.s(pa[0]) * o.n(S(pa[0])))))
        cx.rules.append(T.PairRule(self.U.fam, (0, 1), self.ft, (0, 1), lambda pa, pb: cx.int_eq(pa[0], pb[0]) and cx.valid(ok(pa[0])),
                                   lambda pa, pb, ra, rb: self.slots(S(pa[0] + 1), ra[0], rb[0]), "T(k+1) = U(k)'T(k)", size=lambda pa, pb: S(self.s(pa[0]) * o.n(S(pa[0])))))
        cx.opaque.setdefault("facts", {})["s"] = lambda a, x: z3.Implies(z3.And(a >= 1, a <= d - 1), x <= m.f(a))

    def slots(self, k, a, I):
        """T(k)[a | I] for the modes I = k.., or None if mode k cannot be split off"""
        s = first_mode(I, self.o.base, k)
        if s is None:
            return None
        return Expr([Term(1, at=(Atom(self.ft, (S(k),), (a, (s[0],), s[1])),))])

    def T(self, k):
        k = S(k)
        a, i, rest = new_axis(self.s(k)), self.o.mode(k), self.o.block(S(k + 1), self.o.d)
        body = Expr([Term(1, at=(Atom(self.ft, (k,), (pcs(a), pcs(i), pcs(rest))),))])
        if cx.int_eq(k, 0):
            return Arr([i, Star(rest)] if rest else [i], body).fresh()
        return Arr([a, i, Star(rest)] if rest else [a, i], body).fresh()

    def last(self):
        """T(d-1) as the last core"""
        k = S(self.o.d - 1)
        a, i = new_axis(self.s(k)), self.o.mode(k)
        return Arr([a, i, ()], Expr([Term(1, at=(Atom(self.ft, (k,), (pcs(a), pcs(i), ())),))])).fresh()

    def roles(self, loop, locs):
        lists = [x for x in loop.mutated if x in locs and is_list(locs[x])]
        if len(lists) != 2 or len(loop.carried) != 1 or [x for x in loop.mutated if x in locs and x not in lists]:
            raise Unsupported(f"carried variables {loop.carried} of {loop.qual}")
        loop.r_acc = loop.carried[0]
        cores = [x for x in lists if len(seq_of(locs[x]).parts) == 1 and isinstance(seq_of(locs[x]).at(0), Arr)]
        if len(cores) != 1:
            raise Unsupported("lists of the loop")
        loop.r_list = cores[0]
        loop.r_rank = [x for x in lists if x != cores[0]][0]

    def enter(self, loop, locs):
        self.roles(loop, locs)
        self.known = z3.IntVal(0)
        self.made(seq_of(locs[loop.r_list]).at(0), locs[loop.r_acc], z3.IntVal(0))
        self.ranks(locs[loop.r_rank], z3.IntVal(0), seq_of(locs[loop.r_list]).at(0).shape[2])

    def ranks(self, got, j, r):
        """the rank list holds the ranks made so far and the maximum ranks after them"""
        from .core import PathDone
        e, o = self.e, self.o
        s = seq_of(got)
        e.ieq("length of the rank list", mk(s.zlen()), mk(S(o.d - 1)))
        if cx.choose(2, "ranks") == 0:
            k = generic(0, S(o.d - 1))
            if cx.decide(k < j):
                w = mk(self.s(k + 1))
            elif cx.decide(k == j):
                w = r
            else:
                w = mk(self.m(k + 1))
            e.ieq("rank list", s.at(k), w)
            raise PathDone()

    def state(self, loop, k):
        o = self.o
        self.known = S(k + 1)
        d1 = S(o.d - 1)
        rank = Seq([Gen(z3.IntVal(1), S(k + 2), lambda j: mk(self.s(j)))] + ([] if loop.mode == "exit" else [Gen(S(k + 2), o.d, lambda j: mk(self.m(j)))]), "list")
        return {loop.r_acc: self.T(k + 1), loop.r_rank: rank, loop.r_list: Seq([Gen(z3.IntVal(0), S(k + 1), self.U.core)], "list")}

    def check(self, loop, locs, k):
        j = z3.simplify(k)        # the mode treated
        x = self.last_appended(loop, locs)
        self.made(x, locs.get(loop.r_acc), j)
        self.ranks(locs.get(loop.r_rank), j, x.shape[2])

    def last_appended(self, loop, locs):
        got = locs.get(loop.r_list)
        if not isinstance(got, Seq) or not cx.valid(got.zlen() == loop.k + 2):
            raise Refuted(self.name, "not one element is appended per iteration")
        return got.parts[-1][1]

    def made(self, x, Tn, j):
        e, o = self.e, self.o
        np = e.np
        Tk = self.T(j)
        M = Tk.reshape(mk(self.s(j)) * mk(o.n(S(j))), -1)
        U, Sg, V = np.linalg.svd(M, full_matrices=False)
        r = e.max(1, e.min(Sg.shape[0], mk(self.m(j + 1))))
        e.ieq("rank: the maximum rank, up to the number of singular values", x.shape[2], r)
        e.ieq("left rank of the new core", x.shape[0], mk(self.s(j)))
        e.ieq("mode size of the new core", x.shape[1], mk(o.n(j)))
        Tm = Tn.reshape(x.shape[2], -1)
        xm = x.reshape(M.shape[0], x.shape[2])
        e.eq("new core left-orthogonal", xm.T @ xm, np.eye(x.shape[2]))
        e.eq("the rest is the tensor projected on the new core", xm.T @ M, Tm)
        e.seq("squared norm lost in this step: the discarded singular values", np.sum(M * M) - np.sum(Tm * Tm), np.sum(Sg * Sg) - np.sum(Sg[:r] * Sg[:r]))


def lemma_tt_svd(e, o, sw):
    """Y(k)[a | I_k..] = U(k) ... U(d-2) T(d-1): <T(k), Y(k)> = <T(k+1), Y(k+1)> and |Y(k)| = |Y(k+1)|"""
    from .core import PathDone
    fam = Family("Y")
    sw.known = S(o.d - 1)

    def Y(k):
        k = S(k)
        if cx.int_eq(k, o.d - 1):
            return sw.T(k)
        a, I = new_axis(sw.s(k)), o.block(k, o.d)
        return Arr([a, Star(I)], Expr([Term(1, at=(Atom(fam, (k,), (pcs(a), pcs(I))),))])).fresh()
    if cx.choose(2, "lemma") == 0:
        k = generic(0, o.d - 1)
        cx.decide(k == 0)
        cx.decide(k + 1 == o.d - 1)
        y1, t, t1 = Y(k + 1), sw.T(k), sw.T(k + 1)
        y = link(sw.U.core(k), y1)
        e.seq("lemma: <T(k), Y(k)> = <T(k+1), Y(k+1)>", full_dot(t, drop1(y)), full_dot(t1, y1))
        e.seq("lemma: |Y(k)| = |Y(k+1)|", full_dot(y, y), full_dot(y1, y1))
        raise PathDone()
    return Y


# ------------------------------------------------------------------ other formats
class Summands:
    """any number of tensors of one shape, known by what the contracts of their formats promise: dense arrays D(j), sizes z(j), inner products"""

    def __init__(self, e, o, name="D", count="m", lo=1):
        self.e, self.o = e, o
        self.m = e.size(count, lo=lo)
        self.fam = Family(name)
        self.size = z3.Function("z_" + name, z3.IntSort(), z3.IntSort())
        cx.opaque.setdefault("positive", set()).add("z_" + name)
        self.scaled = Family(name + "*")
        S_ = self

        class Summand(e.tensor.Tensor):
            """summand j, times c, with its modes reversed"""

            def __init__(self, j, c=None, rev=False):
                self.j, self.c, self.rev = j, c, rev

            @property
            def shape(self):
                return S_.o.shape if not self.rev else seq_rev(S_.o.shape)

            @property
            def size(self):
                return mk(S_.size(self.j))

            @property
            def T(self):
                return Summand(self.j, self.c, not self.rev)

            def __mul__(self, c):
                if not isinstance(c, (int, float, A.SymScalar, SymInt)):
                    raise TypeError("not a number")
                return Summand(self.j, c * self.c if self.c is not None else c, self.rev)

            def to_numpy(self):
                a = S_.dense(self.j) * self.c if self.c is not None else S_.dense(self.j)
                return flip(a) if self.rev else a
        Summand.__abstractmethods__ = frozenset()
        self.cls = Summand
        self.store = {}

    def item(self, j):
        j = S(j)
        k = j.sexpr()
        if k not in self.store:
            self.store[k] = self.cls(j)
        return self.store[k]

    def dense(self, j):
        I = self.o.block(0, self.o.d)
        return Arr([Star(I)], Expr([Term(1, at=(Atom(self.fam, (S(j),), (pcs(I),)),))]), store=A.Store(f"the dense array of a summand", True))

    def list(self):
        return mkseq([Gen(z3.IntVal(0), S(self.m), self.item)], "list")

    def partial(self, k, weight=None, name="PS"):
        """W(k) = sum over j < k of weight(j) D(j)"""
        fam = self.__dict__.setdefault("fam_" + name, None)
        o = self.o
        if fam is None:
            fam = Family(name)

            def unfold(par, slots):
                k = S(par[0])
                if cx.int_eq(k, 0):
                    return T.const(0)
                t = T.const(1) if weight is None else weight(S(k - 1))
                d = T.mul(t, Expr([Term(1, at=(Atom(self.fam, (S(k - 1),), slots),))]))
                if cx.int_eq(k, 1):
                    return d
                return T.add(Expr([Term(1, at=(Atom(fam, (S(k - 1),), slots),))]), d)
            fam.unfold = unfold
            fam.meta = dict(group=name, dir=1, idx=lambda p: p[0], isbase=lambda p: lit(p[0]) or cx.int_eq(p[0], 0) or cx.int_eq(p[0], 1))
            self.__dict__["fam_" + name] = fam
        I = o.block(0, o.d)
        return Arr([Star(I)], Expr([Term(1, at=(Atom(fam, (S(k),), (pcs(I),)),))])).fresh()


def seq_rev(s):
    from .seqs import rev
    return rev(s)


class Numbers:
    """real numbers w(0), w(1), ..."""

    def __init__(self, name):
        self.fam = Family(name)

    def term(self, j):
        return Expr([Term(1, at=(Atom(self.fam, (S(j),), ()),))])

    def __call__(self, j):
        return A.SymScalar(self.term(j))

    def list(self, n):
        return mkseq([Gen(z3.IntVal(0), S(n), lambda j: self(j))], "list")

    def total(self, n):
        v = Var(Fac(size=S(n)))
        return A.SymScalar(T.sum_over(self.term(v.z), (v,)))


class Arrays:
    """a family of arrays A(k) with the axes that axes(k) gives: sizes, or ("mode", base, j) for a mode"""

    def __init__(self, name, axes, n, lo=0):
        self.fam, self.axes, self.n, self.lo = Family(name), axes, S(n), S(lo)
        self.store, self.name = {}, name

    def slots(self, k):
        return [new_axis(self_n(a), mode=(a[1], S(a[2]))) if isinstance(a, tuple) else new_axis(S(a)) for a in self.axes(S(k))]

    def __call__(self, k):
        k = S(k)
        key = k.sexpr()
        if key not in self.store:
            self.store[key] = A.Store(f"the input {self.name}", True)
        ax = self.slots(k)
        return Arr(ax, Expr([Term(1, at=(Atom(self.fam, (k,), [pcs(x) for x in ax]),))]), store=self.store[key])

    def list(self, kind="list"):
        return mkseq([Gen(self.lo, self.n, self)], kind)


def self_n(a):
    return prod_fn(a[1])[1](S(a[2]))


def intfun(name):
    """positive integers name(k)"""
    f = z3.Function(name, z3.IntSort(), z3.IntSort())
    cx.opaque.setdefault("positive", set()).add(name)
    return f


def cp_prefix(o, C, r, name="PC"):
    """P(k)[I | a] = product over j < k of C(j)[i_j, a]"""
    fam = Family(name)

    def unfold(par, slots):
        k = S(par[0])
        I, a = slots
        if cx.int_eq(k, 0):
            return T.const(1)
        k1 = S(k - 1)
        s = last_mode(I, o.base, k1)
        if s is None:
            return None
        J, p = s
        at = (Atom(C.fam, (k1,), ((p,), a)),)
        if not cx.int_eq(k1, 0):
            at = (Atom(fam, (k1,), (J, a)),) + at
        return Expr([Term(1, at=at)])
    fam.unfold = unfold
    fam.meta = dict(group=name, dir=1, idx=lambda p: p[0], isbase=lambda p: lit(p[0]) or cx.int_eq(p[0], 0) or cx.int_eq(p[0], 1),
                    cuts=lambda p: {o.base: [S(p[0] - 1)]})

    def arr(k):
        k = S(k)
        I, a = o.block(0, k), new_axis(Z(r))
        return Arr([Star(I), a], Expr([Term(1, at=(Atom(fam, (k,), (pcs(I), pcs(a))),))])).fresh()
    arr.fam = fam

    def dense():
        p = arr(o.d)
        return Arr([p.axes[0]], T.sum_over(p.body, p.axes[1])).fresh()
    arr.dense = dense
    return arr


class Coords:
    """N columns of in-range coordinates: row k of column q is f(k, q), 0 <= f(k, q) < n(k)"""

    def __init__(self, e, o, N, name="J", distinct=True):
        self.o, self.N, self.name, self.distinct = o, Z(N), name, distinct
        self.f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.IntSort())
        cx.opaque.setdefault("bounded", {})[name] = lambda x: o.n(x.arg(0))
        cx.opaque.setdefault("coords", []).append(self)
        self.store = {}
        self.P, self.Q = self._products("P" + name, True), self._products("Q" + name, False)
        self.flat = z3.Function(name + "<flat>", z3.IntSort(), z3.IntSort())
        if distinct:
            cx.opaque.setdefault("distinct", []).append(((name + "<flat>",), self.N))
        # columns are the same if and only if their flat indices are
        whole = lambda a: cx.int_eq(a[0], o.d)
        for c in cx.opaque["coords"]:
            if c.o is not o and c.o.base != o.base:
                continue

            def both(pa, pb, ra, rb, f=self.flat, g=c.flat):
                return Expr([Term(1, g=(f(T.flat_index(ra[0])) == g(T.flat_index(rb[0])),))])
            cx.rules.append(T.PairRule(self.P.fam, (0,), c.P.fam, (0,), lambda pa, pb: whole(pa) and whole(pb), both, "flat indices", size=lambda pa, pb: A.prod_term(o.base, z3.IntVal(0), o.d)))

    def row(self, k):
        k = S(k)
        key = k.sexpr()
        if key not in self.store:
            self.store[key] = A.Store(f"the input {self.name}", True)
        v = new_axis(self.N)
        return Arr([v], kind="i", ip=(("z", S(self.o.n(k)), self.f(k, v[0].z), None),), store=self.store[key])

    def rows(self, kind="tuple"):
        return mkseq([Gen(z3.IntVal(0), self.o.d, self.row)], kind)

    def indices(self):
        return snp.rows_of(self.rows())

    def flats(self):
        """the flat indices of the columns"""
        v = new_axis(self.N)
        return Arr([v], kind="i", ip=(("z", None, self.flat(v[0].z), None),))

    def listed(self, seq):
        """whether these are the rows: False (in order), True (in reversed order) or None"""
        s = seq_of(seq)
        if not cx.int_eq(s.zlen(), self.o.d):
            return None
        k = z3.Int(cx.fresh("k"))
        for back in (False, True):
            ok = True
            for p in s.parts:
                if not isinstance(p, Gen) and len(s.parts) > 1:
                    ok = False
            if not ok:
                return None
            r = s.parts[0].at(k) if isinstance(s.parts[0], Gen) else s.parts[0][1]
            if not isinstance(r, Arr) or r.kind != "i" or len(r.axes) != 1 or not r.axes[0]:
                return None
            q = r.axes[0][0].z
            if z3.simplify(T.flat_index(r.ip)).eq(z3.simplify(self.f(S(self.o.d - 1 - k) if back else k, q))):
                return back
        return None

    def prefix(self, seq, shape):
        """the flat indices of the first rows, or of the last ones from the last to the first"""
        s, sh = seq_of(seq), seq_of(shape)
        k, j = S(s.zlen()), z3.Int(cx.fresh("j"))
        if len(s.parts) != 1 or not isinstance(s.parts[0], Gen) or not cx.int_eq(k, sh.zlen()):
            return None
        r = s.parts[0].at(j)
        if not isinstance(r, Arr) or r.kind != "i" or len(r.axes) != 1 or not r.axes[0]:
            return None
        for back in (False, True):
            at = S(self.o.d - 1 - j) if back else j
            if not z3.simplify(T.flat_index(r.ip)).eq(z3.simplify(self.f(at, r.axes[0][0].z))):
                continue
            cx.solver.push()
            try:
                cx.solver.add(j >= 0, j < k)
                ok = cx.solver.check(Z(sh.parts[0].at(j) if isinstance(sh.parts[0], Gen) else sh.parts[0][1]) != self.o.n(at)) == z3.unsat if len(sh.parts) == 1 else False
            finally:
                cx.solver.pop()
            if not ok:
                raise Unsupported("flat indices for another shape")
            v = new_axis(self.N)
            g = z3.Function(cx.fresh(self.name + "<flat>"), z3.IntSort(), z3.IntSort())
            return Arr([v], kind="i", ip=(("z", None, g(v[0].z), None),), meta=dict(prefix=(self, k, back)))
        return None

    def pick(self, a, k, back):
        """[a | q]: sum over I of a[a | I] [I = the first (last, reversed) k rows of column q]"""
        p = self.Q(S(self.o.d - k)) if back else self.P(k)
        a = turned(a)
        a = Arr([a.axes[0] if isinstance(a.axes[0], Star) else Star(a.axes[0]), a.axes[1]], a.body)
        if back:
            a = rows_reversed(a)
        com, m1, m2 = A.unify(p.axes[0].vs, a.axes[0].vs)
        return Arr([a.axes[1], p.axes[1]], T.sum_over(T.mul(T.subst(p.body, m1), T.subst(a.body, m2)), com)).fresh()

    def delta(self, k):
        """[i | q] -> 1 if i is row k of column q"""
        i, q = self.o.mode(k), new_axis(self.N)
        return Arr([i, q], Expr([Term(1, g=(T.flat_index(pcs(i)) == self.f(S(k), q[0].z),))])).fresh()

    def _products(self, name, up):
        """up: P(k)[I | q] = product over j < k of delta(j)[i_j, q];  down: Q(k)[I | q], over j >= k"""
        o, fam, f = self.o, Family(name), self.f

        def unfold(par, slots):
            k = S(par[0])
            I, q = slots
            if cx.int_eq(k, 0 if up else o.d):
                return T.const(1)
            j, nxt = (S(k - 1), S(k - 1)) if up else (k, S(k + 1))
            s = last_mode(I, o.base, j) if up else first_mode(I, o.base, j)
            if s is None:
                return None
            J, p = s if up else (s[1], s[0])
            at = () if cx.int_eq(nxt, 0 if up else o.d) else (Atom(fam, (nxt,), (J, q)),)
            return Expr([Term(1, at=at, g=(T.flat_index((p,)) == f(j, T.flat_index(q)),))])
        fam.unfold = unfold
        if up:
            fam.meta = dict(group=name, dir=1, idx=lambda p: p[0], isbase=lambda p: lit(p[0]) or cx.int_eq(p[0], 0) or cx.int_eq(p[0], 1),
                            cuts=lambda p: {o.base: [S(p[0] - 1)]})
        else:
            fam.meta = dict(group=name, dir=-1, idx=lambda p: p[0], isbase=lambda p: lit(S(o.d - p[0])) or cx.int_eq(p[0], o.d) or cx.int_eq(p[0] + 1, o.d),
                            cuts=lambda p: {o.base: [S(p[0] + 1)]})

        def arr(k):
            k = S(k)
            I, q = (o.block(0, k) if up else o.block(k, o.d)), new_axis(self.N)
            return Arr([Star(I), q], Expr([Term(1, at=(Atom(fam, (k,), (pcs(I), pcs(q))),))])).fresh()
        arr.fam = fam
        return arr

    def columns(self, back=False):
        """[I | q] -> 1 if I is column q"""
        p = self.P(self.o.d)
        if not back:
            return p
        r = flip(p)
        return Arr([r.axes[1], r.axes[0]], r.body)

    def read(self, D):
        """[q]: sum over I of [I = column q] D(I)"""
        p = self.P(self.o.d)
        D = D.fresh()
        com, m1, m2 = A.unify(p.axes[0].vs, D.axes[0].vs if isinstance(D.axes[0], Star) else D.allvars())
        return Arr([p.axes[1]], T.sum_over(T.mul(T.subst(p.body, m1), T.subst(D.body, m2)), com)).fresh()

    def dense(self, v):
        """entry I is the sum of the v(q) with column q = I"""
        p = self.P(self.o.d)
        v = v.fresh()
        c, m1, m2 = A.unify_axes(p.axes[1], v.axes[0])
        return Arr([p.axes[0]], T.sum_over(T.mul(T.subst(p.body, m1), T.subst(v.body, m2)), c)).fresh()


def blockvars(base, lo, hi):
    f = T.known_single(Fac(iv=(base, S(lo), S(hi), False)))
    return (Var(f),) if f is not None else ()


def products(o, U, rb, name, up=True):
    """up: P(k)[A | I] = product over j < k of U(j)[a_j, i_j];  down: over j >= k"""
    fam = Family(name)
    last = (lambda k: cx.int_eq(k, 0)) if up else (lambda k: cx.int_eq(k, o.d))

    def unfold(par, slots):
        k = S(par[0])
        if last(k):
            return T.const(1)
        A_, I = slots
        j, nxt = (S(k - 1), S(k - 1)) if up else (k, S(k + 1))
        if up:
            s, t = last_mode(I, o.base, j), last_mode(A_, rb, j)
            if s is None or t is None:
                return None
            (J, p), (B, q) = s, t
        else:
            s, t = first_mode(I, o.base, j), first_mode(A_, rb, j)
            if s is None or t is None:
                return None
            (p, J), (q, B) = s, t
        at = (Atom(U.fam, (j,), ((q,), (p,))),)
        if not last(nxt):
            at += (Atom(fam, (nxt,), (B, J)),)
        return Expr([Term(1, at=at)])
    fam.unfold = unfold
    end = (lambda p: p) if up else (lambda p: S(o.d - p))
    fam.meta = dict(group=name, dir=1 if up else -1, idx=lambda p: p[0], isbase=lambda p: lit(end(p[0])) or cx.int_eq(end(p[0]), 0) or cx.int_eq(end(p[0]), 1),
                    cuts=lambda p: {o.base: [S(p[0] - 1 if up else p[0] + 1)], rb: [S(p[0] - 1 if up else p[0] + 1)]})

    def atom(k, A_, I):
        return Expr([Term(1, at=(Atom(fam, (S(k),), (A_, I)),))])
    atom.fam = fam
    return atom


class Tucker:
    """core X[a_1 .. a_d], a_k < q(k), and factors U(k)[a, i].  P(k)[A | I]: the product of the first k factors, Q(k): of those from k.
    The dense array is the sum over A of X[A] P(d)[A | I]."""

    def __init__(self, e, o, name="K", rank="q"):
        self.o, self.rb = o, rank
        self.q = prod_fn(rank)[1]
        cx.opaque.setdefault("positive", set()).add(f"n<{rank}>")
        d = o.d
        self.fc = Family(name)
        R = blockvars(rank, 0, d)
        self.core = Arr([Star(R)], Expr([Term(1, at=(Atom(self.fc, (), (pcs(R),)),))]), store=A.Store(f"the input {name}", True))
        self.U = Arrays("U" + name, lambda k: (("mode", rank, k), ("mode", o.base, k)), d)
        self.P = products(o, self.U, rank, "PU" + name)
        self.Q = products(o, self.U, rank, "QU" + name, up=False)

    def part(self, lo, hi, atom, k, star):
        """the core with the factors lo..hi-1 applied: (modes lo..hi-2, mode hi-1, modes from hi) as the loop over the modes carries it, or all modes apart"""
        o = self.o
        B, R = blockvars(self.rb, lo, hi), blockvars(self.rb, hi, o.d)
        if star:
            I = blockvars(o.base, lo, hi)
            ax = [Star(I), Star(R)] if R else [Star(I)]
            J = pcs(I)
        else:
            I, i = blockvars(o.base, lo, S(hi - 1)), o.mode(S(hi - 1))
            ax, J = [I, i, R], pcs(I) + pcs(i)
        core = Expr([Term(1, at=(Atom(self.fc, (), (pcs(B) + pcs(R),)),))])
        return Arr(ax, T.sum_over(T.mul(core, atom(k, pcs(B), J)), B)).fresh()

    def W(self, k, star=False):
        k = S(k)
        if cx.int_eq(k, 0):
            R = blockvars(self.rb, 0, self.o.d)
            return Arr([Star(R)], Expr([Term(1, at=(Atom(self.fc, (), (pcs(R),)),))]))
        return self.part(z3.IntVal(0), k, self.P, k, star)

    def back(self, k, star=False):
        """the last d - k factors applied, modes in the opposite order"""
        k, o = S(k), self.o
        if cx.int_eq(k, o.d):
            return flip(self.core)
        B, R = blockvars(self.rb, k, o.d), blockvars(self.rb, 0, k)
        if star:
            I = blockvars(o.base, k, o.d)
            ax, J = [Star(R), Star(I)] if R else [Star(I)], pcs(I)
        else:
            i, I = o.mode(k), blockvars(o.base, S(k + 1), o.d)
            ax, J = [Star(R), i, Star(I)], pcs(i) + pcs(I)
        core = Expr([Term(1, at=(Atom(self.fc, (), (pcs(R) + pcs(B),)),))])
        r = A.flip(Arr(ax, T.sum_over(T.mul(core, self.Q(k, pcs(B), J)), B)).fresh())
        return r if star else Arr([x.vs if isinstance(x, Star) else x for x in r.axes], r.body)

    def tensor(self, e):
        return e.tensor.TuckerTensor(self.U.list(), self.core)

    def lemma(self, e):
        """P(k) Q(k) does not depend on k (induction; the step is an obligation)"""
        from .core import PathDone
        if cx.choose(2, "tucker lemma") == 1:
            return
        o = self.o
        k = generic(0, o.d)
        cx.decide(k == 0)
        cx.decide(k == o.d - 1)

        def both(k):
            ax = [blockvars(self.rb, 0, k), blockvars(self.rb, k, o.d), blockvars(o.base, 0, k), blockvars(o.base, k, o.d)]
            B1, B2, I1, I2 = ax
            return Arr([Star(B1 + B2), Star(I1 + I2)], T.mul(self.P(k, pcs(B1), pcs(I1)), self.Q(k, pcs(B2), pcs(I2)))).fresh()
        e.eq("lemma: the product of all factors does not depend on where it is split", both(k), both(S(k + 1)))
        raise PathDone()


def cp_suffix(o, C, r, name="QC"):
    """Q(k)[a | I] = product over j >= k of C(j)[i_j, a]"""
    fam = Family(name)

    def unfold(par, slots):
        k = S(par[0])
        I, a = slots
        if cx.int_eq(k, o.d):
            return T.const(1)
        s = first_mode(I, o.base, k)
        if s is None:
            return None
        p, J = s
        at = (Atom(C.fam, (k,), ((p,), a)),)
        if not cx.int_eq(k + 1, o.d):
            at += (Atom(fam, (S(k + 1),), (J, a)),)
        return Expr([Term(1, at=at)])
    fam.unfold = unfold
    fam.meta = dict(group=name, dir=-1, idx=lambda p: p[0], isbase=lambda p: lit(S(o.d - p[0])) or cx.int_eq(p[0], o.d) or cx.int_eq(p[0] + 1, o.d),
                    cuts=lambda p: {o.base: [S(p[0] + 1)]})

    def arr(k):
        """[I | a], the modes in natural order"""
        k = S(k)
        I, a = o.block(k, o.d), new_axis(Z(r))
        return Arr([Star(I), a], Expr([Term(1, at=(Atom(fam, (k,), (pcs(I), pcs(a))),))])).fresh()
    arr.fam = fam
    return arr


def hadamard_link(P, Q):
    """[I | J | a]: P[I | a] Q[J | a]"""
    P, Q = P.fresh(), Q.fresh()
    com, m1, m2 = A.unify(P.axes[1], Q.axes[1])
    return Arr([P.axes[0], Q.axes[0], tuple(com)], T.mul(T.subst(P.body, m1), T.subst(Q.body, m2))).fresh()


def rows_reversed(q):
    """[I | a] with the modes of I in the opposite order"""
    q = q.fresh()
    f = A.flip(Arr([q.axes[0]], q.body))
    return Arr([f.axes[0], q.axes[1]], f.body).fresh()


def join2(a):
    """[I | J | ..] as [I J | ..]"""
    a = a.fresh()
    return Arr([Star(a.axes[0].vs + a.axes[1].vs)] + list(a.axes[2:]), a.body)


def rows_summed(q):
    """[I | a] summed over a"""
    q = q.fresh()
    return Arr([q.axes[0]], T.sum_over(q.body, q.axes[1])).fresh()


def cols_first(m, a):
    """[x, ..]: sum over I of m[I | x] a[I, ..]"""
    m, a = m.fresh(), a.fresh()
    com, m1, m2 = A.unify(m.axes[0].vs, a.axes[0].vs)
    return Arr([m.axes[1]] + list(a.axes[1:]), T.sum_over(T.mul(T.subst(m.body, m1), T.subst(a.body, m2)), com)).fresh()


def rows_last(a, m):
    """[.., y]: sum over J of a[.., J] m[y | J]"""
    m, a = m.fresh(), a.fresh()
    com, m1, m2 = A.unify(m.axes[1].vs, a.axes[-1].vs)
    return Arr(list(a.axes[:-1]) + [m.axes[0]], T.sum_over(T.mul(T.subst(m.body, m1), T.subst(a.body, m2)), com)).fresh()


def turned(m):
    """[I | y] of m[y | I]"""
    m = m.fresh()
    return Arr([m.axes[1], m.axes[0]], m.body)


def over_last(a, b):
    """[.., ..]: sum over the last axis of both, of a[.., c] b[.., c]; without axes of size one in front"""
    a, b = a.fresh(), b.fresh()
    com, m1, m2 = A.unify(a.axes[-1], b.axes[-1])
    return Arr(list(a.axes[:-1]) + list(b.axes[:-1]), T.sum_over(T.mul(T.subst(a.body, m1), T.subst(b.body, m2)), com)).fresh()


def times_last(a, b):
    """[.., .., c]: a[.., c] b[.., c]"""
    a, b = a.fresh(), b.fresh()
    com, m1, m2 = A.unify(a.axes[-1], b.axes[-1])
    return Arr(list(a.axes[:-1]) + list(b.axes[:-1]) + [tuple(com)], T.mul(T.subst(a.body, m1), T.subst(b.body, m2))).fresh()


def cut_modes(o, a, axes):
    """the dense array a with the given axes, which list its modes in order"""
    a = a.fresh()
    com = tuple(q for x in axes for q in (pcs(x.vs) if isinstance(x, Star) else pcs(x)))
    return Arr(list(axes), a.at([com])).fresh()


def pseudo_inverses(O, marker, axes, name):
    """the pseudo-inverse of O(k) for every k, as a family: pinv(O(k)') = pinv(O(k))'.  Every O(k) has an atom of the family `marker` with parameter k"""
    R = Arrays(name, axes, O.n, O.lo)
    cx.opaque.setdefault("pinvgen", []).append((marker, O, R))
    return R


class FullRank:
    """matrices P(k) (l(k) x q(k)) of full column rank, Q(k) (q(k) x r(k)) of full row rank: P+ P = I, Q Q+ = I, pinv(P Q) = Q+ P+"""

    def __init__(self, o, l, q, r):
        d = o.d
        self.P, self.Q = Arrays("FP", lambda k: (l(k), q(k)), d, lo=1), Arrays("FQ", lambda k: (q(k), r(k)), d, lo=1)
        self.Pi, self.Qi = Arrays("FPi", lambda k: (q(k), l(k)), d, lo=1), Arrays("FQi", lambda k: (r(k), q(k)), d, lo=1)
        ok = lambda pa, pb: cx.int_eq(pa[0], pb[0]) and cx.valid(z3.And(pa[0] >= 1, pa[0] < d))
        I = lambda pa, pb, ra, rb: T.delta(ra[0], rb[0])
        cx.rules.append(T.PairRule(self.Pi.fam, (1,), self.P.fam, (0,), ok, I, "P+P=I", size=lambda pa, pb: S(l(pa[0]))))
        cx.rules.append(T.PairRule(self.Q.fam, (1,), self.Qi.fam, (0,), ok, I, "QQ+=I", size=lambda pa, pb: S(r(pa[0]))))
        snp.trust("pinv(PQ) = pinv(Q) pinv(P) for full-rank P, Q")
        self.n, self.lo = S(d), z3.IntVal(1)
        cx.opaque.setdefault("pinvgen", []).append((self.P.fam, self, lambda k: link(self.Qi(k), self.Pi(k))))

    def __call__(self, k):
        return link(self.P(k), self.Q(k))

    def list(self):
        return mkseq([Gen(self.lo, self.n, self)], "list")


class Built:
    """a train whose cores are given by a function of the mode: first, inner and last core"""

    def __init__(self, o, rank, core):
        self.o, self.r, self.core = o, rank, core

    def prefix(self, name):
        """P(k)[I | b]: product of cores 0..k-1, for k >= 1"""
        o, r = self.o, self.r
        fam = Family(name)

        def unfold(par, slots):
            k = S(par[0])
            I, b = slots
            k1 = S(k - 1)
            s = last_mode(I, o.base, k1)
            first = cx.int_eq(k1, 0)
            if s is None or not (first or cx.valid(k1 > 0)) or not (cx.int_eq(k, o.d) or cx.valid(k < o.d)):
                return None
            J, p = s
            a = new_axis(r(k1))
            x = self.core(k1).at([pcs(a), (p,), b])
            return T.sum_over(x if first else T.mul(Expr([Term(1, at=(Atom(fam, (k1,), (J, pcs(a))),))]), x), a)
        fam.unfold = unfold
        fam.meta = dict(group=name, dir=1, idx=lambda p: p[0], isbase=lambda p: lit(p[0]) or cx.int_eq(p[0], 1), cuts=lambda p: {o.base: [S(p[0] - 1)]})

        def arr(k):
            k = S(k)
            I, b = o.block(0, k), new_axis(r(k))
            return Arr([Star(I), b], Expr([Term(1, at=(Atom(fam, (k,), (pcs(I), pcs(b))),))])).fresh()
        arr.fam = fam
        arr.dense = lambda: drop1(arr(o.d))
        return arr


def joined(a):
    """[modes.., column]: the modes as one block"""
    a = a.fresh()
    return Arr([Star(tuple(v for x in a.axes[:-1] for v in (x.vs if isinstance(x, Star) else x))), a.axes[-1]], a.body)


def mpo_prefix(o, o2, M, r, name="PM"):
    """P(k)[I | J | a]: product of the operator cores 0..k-1, input modes I, output modes J"""
    fam = Family(name)

    def unfold(par, slots):
        k = S(par[0])
        I, J, b = slots
        if cx.int_eq(k, 0):
            return T.const(1)
        k1 = S(k - 1)
        s, u = last_mode(I, o.base, k1), last_mode(J, o2.base, k1)
        if s is None or u is None:
            return None
        a = new_axis(r(k1))
        at = (Atom(M.fam, (k1,), (pcs(a), (s[1],), (u[1],), b)),)
        if not cx.int_eq(k1, 0):
            at = (Atom(fam, (k1,), (s[0], u[0], pcs(a))),) + at
        return Expr([Term(1, bv=a, at=at)])
    fam.unfold = unfold
    fam.meta = dict(group=name, dir=1, idx=lambda p: p[0], isbase=lambda p: lit(p[0]) or cx.int_eq(p[0], 0) or cx.int_eq(p[0], 1),
                    cuts=lambda p: {o.base: [S(p[0] - 1)], o2.base: [S(p[0] - 1)]})

    def arr(k):
        k = S(k)
        I, J, b = o.block(0, k), o2.block(0, k), new_axis(r(k))
        return Arr([Star(I), Star(J), b], Expr([Term(1, at=(Atom(fam, (k,), (pcs(I), pcs(J), pcs(b))),))])).fresh()
    arr.fam = fam
    return arr


def applied(m, p):
    """[J | (a, b)]: sum over I of m[I | J | a] p[I | b]"""
    m, p = m.fresh(), p.fresh()
    com, m1, m2 = A.unify(m.axes[0].vs, p.axes[0].vs)
    return Arr([m.axes[1], tuple(m.axes[2]) + tuple(p.axes[1])], T.sum_over(T.mul(T.subst(m.body, m1), T.subst(p.body, m2)), com)).fresh()


def first_two(m):
    """the first two axes exchanged"""
    m = m.fresh()
    return Arr([m.axes[1], m.axes[0]] + list(m.axes[2:]), m.body)
