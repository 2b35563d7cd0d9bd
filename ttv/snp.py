"""Shim modules for numpy / scipy: every function is an assumed contract over symbolic arrays.

An attribute that is not modelled raises Unsupported (never a verdict).
"""
from __future__ import annotations
import types
import z3
from . import arr as A
from . import term as T, seqs
from .arr import Arr, SymScalar, OpaqueBool, OpaqueMask, DT, fn, Star, as_arr, vsize, scalar_of
from .core import cx, Z, Zb, mk, SymInt, SymBool, Unsupported, isint, smin, smax
from .seqs import Seq, Gen, of as seq_of, mkseq
from .term import Family, Atom, Expr, Term, PairRule, Var, Fac


class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{self.__name__}.{n}")


class _Sub:
    """stand-in for typing-only objects"""

    def __getitem__(self, i):
        return self

    def __call__(self, *a, **k):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__


# --------------------------------------------------------------- linear algebra contracts
TRUST = {}


def trust(n):
    TRUST[n] = TRUST.get(n, 0) + 1


def lam_equal(a, b):
    """two 2-d arrays have the same value"""
    try:
        return A.arr_eq(a, b)[0]
    except Unsupported:
        return False


def find_opaque(kind, m):
    for (k, src, res) in cx.opaque.setdefault("linalg", []):
        if k == kind and len(src.axes) == len(m.axes):
            try:
                if all(cx.int_eq(vsize(x), vsize(y)) for x, y in zip(src.axes, m.axes)) and lam_equal(src, m):
                    return res
            except Unsupported:
                pass
    return None


def need2(a):
    a = as_arr(a)
    if len(a.axes) != 2:
        raise Unsupported("linear algebra on a stack of matrices")
    return a.as_float().fresh()


def mat_at(a, s0, s1):
    return a.at([s0, s1])


def same_range(slot_pieces, size):
    p = z3.IntVal(1)
    for x in slot_pieces:
        p = p * T.piece_size(x)
    return cx.int_eq(z3.simplify(p), size)


def qr_contract(a):
    """reduced QR: Q (m,k), R (k,n), k=min(m,n); Q^T Q = I, Q R = a."""
    trust("numpy.linalg.qr / scipy.linalg.qr (economic)")
    a = need2(a)
    r = find_opaque("qr", a)
    if r is not None:
        return r[0].fresh(), r[1].fresh()
    m, n = vsize(a.axes[0]), vsize(a.axes[1])
    k = A.vsize(()) if False else smin(mk(m), mk(n))
    kz = Z(k)
    fq, fr = Family(cx.fresh("Q")), Family(cx.fresh("R"))
    row, col = a.axes
    kax = A.new_axis(k)
    Q = Arr([row, kax], Expr([Term(1, at=(Atom(fq, (), (A.pcs(row), A.pcs(kax))),))])).fresh()
    kax2 = A.new_axis(k)
    R = Arr([kax2, col], Expr([Term(1, at=(Atom(fr, (), (A.pcs(kax2), A.pcs(col))),))])).fresh()
    an = Arr(a.axes, T.normalize(a.body))
    cx.rules.append(PairRule(fq, (0,), fq, (0,), lambda pa, pb: True,
                             lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "Q'Q=I", size=m))
    if T.SubtermRule.usable(an):
        # A is replaced by Q R wherever it occurs
        def fold(slots, kz=kz, fq=fq, fr=fr):
            kv = A.new_axis(mk(kz))
            return T.sum_over(Expr([Term(1, at=(Atom(fq, (), (slots[0], A.pcs(kv))), Atom(fr, (), (A.pcs(kv), slots[1]))))]), kv)
        cx.rules.append(T.SubtermRule(an, fold, "A=QR"))
    else:
        cx.rules.append(PairRule(fq, (1,), fr, (0,), lambda pa, pb: True,
                                 lambda pa, pb, ra, rb, a=a: a.at([ra[0], rb[0]]), "QR=A", size=kz))

        def rtr(pa, pb, ra, rb, a=a):
            v = [T.Var(x.fac) for x in a.axes[0]]
            ps = tuple(x.piece() for x in v)
            return T.sum_over(T.mul(a.at([ps, ra[0]]), a.at([ps, rb[0]])), v)
        cx.rules.append(PairRule(fr, (0,), fr, (0,), lambda pa, pb: True, rtr, "R'R=A'A", size=kz))
    # a square Q (k = m) is orthogonal from both sides
    if cx.valid(m <= n):
        cx.rules.append(PairRule(fq, (1,), fq, (1,), lambda pa, pb: True,
                                 lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "QQ'=I", size=kz))
    cx.opaque["linalg"].append(("qr", a, (Q, R)))
    return Q, R


def svd_contract(a, full):
    """U S V: U^T U = I, V V^T = I, S decreasing nonnegative, a = U diag(S) V."""
    trust("numpy.linalg.svd")
    a = need2(a)
    r = find_opaque(("svd", full), a)
    if r is not None:
        return tuple(x.fresh() for x in r)
    m, n = vsize(a.axes[0]), vsize(a.axes[1])
    k = smin(mk(m), mk(n))
    kz = Z(k)
    base = cx.opaque.setdefault("svdfam", [])
    fu, fs, fv = None, None, None
    for (src, fams) in base:
        if lam_equal(src, a):
            fu, fs, fv = fams
    first = fu is None
    if first:
        fu, fs, fv = Family(cx.fresh("U")), Family(cx.fresh("S")), Family(cx.fresh("V"))
        base.append((a, (fu, fs, fv)))
    row, col = a.axes
    ku = m if full else kz
    kv = n if full else kz
    xu, xs, xv = A.new_axis(mk(ku)), A.new_axis(k), A.new_axis(mk(kv))
    U = Arr([row, xu], Expr([Term(1, at=(Atom(fu, (), (A.pcs(row), A.pcs(xu))),))])).fresh()
    S = Arr([xs], Expr([Term(1, at=(Atom(fs, (), (A.pcs(xs),)),))])).fresh()
    V = Arr([xv, col], Expr([Term(1, at=(Atom(fv, (), (A.pcs(xv), A.pcs(col))),))])).fresh()
    R = cx.rules
    R.append(PairRule(fu, (0,), fu, (0,), lambda pa, pb: True, lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "U'U=I", size=m))
    R.append(PairRule(fv, (1,), fv, (1,), lambda pa, pb: True, lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "VV'=I", size=n))
    if full or cx.valid(m <= n):
        R.append(PairRule(fu, (1,), fu, (1,), lambda pa, pb: True, lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "UU'=I", size=m))
    if full or cx.valid(n <= m):
        R.append(PairRule(fv, (0,), fv, (0,), lambda pa, pb: True, lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "V'V=I", size=n))
    an = Arr(a.axes, T.normalize(a.body))
    if not first:
        pass
    elif T.SubtermRule.usable(an):
        def fold(slots):
            x = A.new_axis(mk(kz))
            p = A.pcs(x)
            return T.sum_over(Expr([Term(1, at=(Atom(fu, (), (slots[0], p)), Atom(fs, (), (p,)), Atom(fv, (), (p, slots[1]))))]), x)
        rule = T.SubtermRule(an, fold, "A=USV")
        nrm2 = T.normalize(T.sum_over(T.mul(an.body, an.body), [v for y in an.axes for v in y]))
        R.append(rule)
        if not any(rule.apply(t) is not None for t in nrm2.t):
            # the squared norm is known in terms of something else
            R.append(SumSquares(fs, kz, nrm2))
    else:
        nrm2 = T.normalize(T.sum_over(T.mul(an.body, an.body), [v for x in an.axes for v in x]))
        R.append(SumSquares(fs, kz, nrm2))
        R.append(SVDRule(fu, fs, fv, a, kz))
    cx.opaque["linalg"].append((("svd", full), a, (U, S, V)))
    return U, S, V


class SVDRule:
    """sum_{k<K} U[i,k] S[k] V[k,j] = A[i,j] when k ranges over everything; other uses of S are left alone"""

    def __init__(self, fu, fs, fv, a, k):
        self.fu, self.fs, self.fv, self.a, self.k = fu, fs, fv, a, k
        self.name = "USV=A"

    def apply(self, t):
        for i, u in enumerate(t.at):
            if u.fam is not self.fu:
                continue
            for j, s in enumerate(t.at):
                if s.fam is not self.fs:
                    continue
                for l, v in enumerate(t.at):
                    if v.fam is not self.fv:
                        continue
                    p, q, r = u.slots[1], s.slots[0], v.slots[0]
                    if not p:       # rank one: no summation variable
                        if q or r or not cx.int_eq(self.k, 1):
                            continue
                        vs = []
                    else:
                        if len(p) != 1 or len(q) != 1 or len(r) != 1:
                            continue
                        x, y, z = T.bare(p[0]), T.bare(q[0]), T.bare(r[0])
                        if x is None or x is not y or x is not z or x not in t.bv or not cx.int_eq(x.fac.size, self.k):
                            continue
                        cnt, cplx = T.occurrences(t)
                        if cnt.get(x) != 3 or x in cplx:
                            continue
                        vs = [x]
                    rest = Expr([Term(t.c, t.sc, tuple(b for b in t.bv if b not in vs),
                                      tuple(a for n, a in enumerate(t.at) if n not in (i, j, l)), t.g)])
                    return T.mul(rest, self.a.at([u.slots[0], v.slots[1]]))
        return None


class SumSquares:
    """sum of the squares of all singular values = squared Frobenius norm"""

    def __init__(self, fs, k, nrm2):
        self.fs, self.k, self.nrm2 = fs, k, nrm2
        self.name = "sum S^2 = |A|^2"

    def apply(self, t):
        ix = [i for i, a in enumerate(t.at) if a.fam is self.fs]
        if len(ix) != 2:
            return None
        p, q = t.at[ix[0]].slots[0], t.at[ix[1]].slots[0]
        if not p and not q:
            vs = []
            if not cx.int_eq(self.k, 1):
                return None
        else:
            if len(p) != 1 or len(q) != 1:
                return None
            v = T.bare(p[0])
            if v is None or v is not T.bare(q[0]) or v not in t.bv or not cx.int_eq(v.fac.size, self.k):
                return None
            cnt, cplx = T.occurrences(t)
            if cnt.get(v) != 2 or v in cplx:
                return None
            vs = [v]
        rest = Expr([Term(t.c, t.sc, tuple(b for b in t.bv if b not in vs), tuple(a for i, a in enumerate(t.at) if i not in ix), t.g)])
        return T.mul(rest, self.nrm2)


def pinv_family(b):
    """family of pinv(b): shape (n, m); recognises an already known matrix or its transpose"""
    b = need2(b)
    for (src, fam) in cx.opaque.setdefault("pinv", []):
        if cx.int_eq(vsize(src.axes[0]), vsize(b.axes[0])) and cx.int_eq(vsize(src.axes[1]), vsize(b.axes[1])) and lam_equal(src, b):
            return fam, False
        if cx.int_eq(vsize(src.axes[0]), vsize(b.axes[1])) and cx.int_eq(vsize(src.axes[1]), vsize(b.axes[0])) and lam_equal(src, b.T):
            return fam, True
    fam = Family(cx.fresh("pinv"))
    cx.opaque["pinv"].append((b, fam))
    return fam, False


def pinv(b, *a, **k):
    """Moore-Penrose pseudo-inverse (opaque; pinv(B') = pinv(B)')."""
    if a or [x for x in k if k[x] is not None]:
        raise Unsupported("pinv with a cut-off")
    trust("numpy.linalg.pinv / scipy.linalg.lstsq (minimum-norm least squares)")
    b = need2(b)
    for fam, src, res in cx.opaque.get("pinvgen", []):
        for k in {a.params[0].sexpr(): a.params[0] for t in b.body.t for a in t.at if a.fam is fam}.values():
            for tr in (False, True):
                w = src(k).T if tr else src(k)
                if cx.int_eq(vsize(w.axes[0]), vsize(b.axes[0])) and cx.int_eq(vsize(w.axes[1]), vsize(b.axes[1])) and lam_equal(w, b):
                    return (res(k).T if tr else res(k)).fresh()
    for (src, res) in cx.opaque.get("pinvprod", []):
        for tr in (False, True):
            w = src.T if tr else src
            if cx.int_eq(vsize(w.axes[0]), vsize(b.axes[0])) and cx.int_eq(vsize(w.axes[1]), vsize(b.axes[1])) and lam_equal(w, b):
                return (res.T if tr else res).fresh()
    fam, tr = pinv_family(b)
    m, n = b.axes
    s = (A.pcs(n), A.pcs(m))
    return Arr([n, m], Expr([Term(1, at=(Atom(fam, (), s[::-1] if tr else s),))])).fresh()


def lstsq(a, b, cond=None, rcond=None, **k):
    if cond is not None or (rcond is not None and not isinstance(rcond, str)):
        raise Unsupported("lstsq with a cut-off")
    a = need2(a)
    b = as_arr(b)
    if not cx.int_eq(vsize(a.axes[0]), vsize(b.axes[0])):
        A.size_mismatch(vsize(a.axes[0]), vsize(b.axes[0]), "lstsq")
    x = A.matmul(pinv(a), b)
    return (x, None, None, None)


def norm(a, ord=None, axis=None, keepdims=False):
    if ord is not None or axis is not None:
        raise Unsupported("norm options")
    a = as_arr(a)
    return fn("sqrt", fn("abs", SymScalar(T.normalize(A.npsum(a * a).e))))


def _qr(a, mode="reduced", **k):
    if mode in ("full",):
        raise Unsupported("full qr")
    if mode not in ("reduced", "economic"):
        raise Unsupported(f"qr mode {mode}")
    if k:
        raise Unsupported("qr options")
    return qr_contract(a)


def _scipy_qr(a, mode="full", **k):
    for x in k:
        if x not in ("overwrite_a", "check_finite") or (x == "overwrite_a" and k[x]):
            raise Unsupported("qr options")
    return _qr(a, "full" if mode == "full" else mode)


def _svd(a, full_matrices=True, compute_uv=True, **k):
    if k:
        raise Unsupported("svd options")
    U, S, V = svd_contract(a, bool(full_matrices))
    return (U, S, V) if compute_uv else S


def solve_triangular(R, b, lower=False, trans=0, **k):
    """R^{-1} b for nonsingular triangular R (opaque inverse)."""
    if lower or trans or k:
        raise Unsupported("solve_triangular options")
    trust("scipy.linalg.solve_triangular (nonsingular)")
    return A.matmul(inv(R), b)


def inv(a):
    trust("matrix inverse (nonsingular)")
    a = need2(a)
    for (src, fam) in cx.opaque.setdefault("inv", []):
        if lam_equal(src, a):
            break
    else:
        fam = Family(cx.fresh("inv"))
        cx.opaque["inv"].append((a, fam))
        src = a
        n = vsize(a.axes[0])
        if len(a.body.t) == 1 and len(a.body.t[0].at) == 1 and a.body.t[0].c == 1 and not a.body.t[0].bv and not a.body.t[0].g:
            f0 = a.body.t[0].at[0].fam
            cx.rules.append(PairRule(fam, (1,), f0, (0,), lambda pa, pb: True, lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "inv", size=n))
            cx.rules.append(PairRule(f0, (1,), fam, (0,), lambda pa, pb: True, lambda pa, pb, ra, rb: T.delta(ra[0], rb[0]), "inv", size=n))
        else:
            raise Unsupported("inverse of a compound matrix")
    n, m = a.axes[1], a.axes[0]
    return Arr([n, m], Expr([Term(1, at=(Atom(fam, (), (A.pcs(n), A.pcs(m))),))])).fresh()


# --------------------------------------------------------------- scalars and shapes
def prod(x, axis=None, dtype=None, **k):
    if axis is not None:
        raise Unsupported("prod axis")
    if isinstance(x, Arr):
        raise Unsupported("prod of an array")
    if isinstance(x, IVec):
        x = x.v
    if isinstance(x, Seq):
        r = z3.IntVal(1)
        for p in x.parts:
            if isinstance(p, Gen):
                if p.tag is None or p.tag[0] != "n":
                    raise Unsupported("prod of an untagged symbolic sequence")
                r = r * T.prod_term(p.tag[1], p.lo, p.hi)
            else:
                r = r * Z(p[1])
        return mk(r)
    if isint(x):
        return x
    r = 1
    for v in x:
        r = r * v
    return r


def sqrt(x):
    if isinstance(x, Arr) and x.axes:
        return A.entrywise("sqrt", x)
    if isinstance(x, Arr):
        x = scalar_of(x)
    return fn("sqrt", SymScalar.of(x))


def absolute(x):
    if isint(x):
        return abs(x)
    if isinstance(x, Arr) and x.axes:
        return A.entrywise("abs", x)
    return fn("abs", SymScalar.of(scalar_of(x)))


def npall(x, axis=None):
    if isinstance(x, (list, tuple)):
        r = True
        for v in x:
            r = r and bool(v)
        return r
    if isinstance(x, (BVec, SeqMask)):
        return x.all()
    return A.np_all(x)


def npany(x, axis=None):
    if isinstance(x, (list, tuple)):
        return any(bool(v) for v in x)
    if isinstance(x, (BVec, SeqMask)):
        return x.any()
    return A.np_any(x)


def array_equal(a, b, **k):
    """exploring both answers; nothing is assumed on either"""
    a, b = as_arr(a), as_arr(b)
    if len(a.axes) != len(b.axes):
        return False
    for x, y in zip(a.axes, b.axes):
        if not (mk(vsize(x)) == mk(vsize(y))):
            return False
    return OpaqueMask("==", a, b).all()


def array(x, dtype=None, copy=True, **k):
    if isinstance(x, Arr):
        return x.copy()
    if isinstance(x, (IVec, BVec)):
        return type(x)(list(x.v))
    if isinstance(x, Seq) and not x.concrete():
        return SeqArr(x)
    if isinstance(x, (list, tuple, Seq)):
        v = list(x)
        if v and all(isint(i) for i in v) and any(isinstance(i, SymInt) and not isinstance(i, A.CompInt) for i in v):
            return IVec(v)
    if isint(x) and not isinstance(x, (bool, A.CompInt)):
        return IVec0([x])
    return as_arr(x)


class IVec:
    """1-d integer array with a known number of (symbolic) entries; integer arithmetic is taken as unbounded"""
    __array_ufunc__ = None
    __hash__ = None
    ndim = 1

    def __init__(self, v):
        self.v = v

    @property
    def shape(self): return (len(self.v),)
    @property
    def size(self): return len(self.v)
    def __len__(self): return len(self.v)
    def __iter__(self): return iter(self.v)
    def tolist(self): return list(self.v)
    def copy(self): return IVec(list(self.v))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return IVec(self.v[i])
        if isinstance(i, int):
            return self.v[i]
        raise Unsupported("indexing an integer vector")

    def _z(self, o, f, cls):
        if isinstance(o, IVec0):
            o = o.v[0]
        if isinstance(o, (IVec, list, tuple, Seq)):
            o = list(o)
            if len(o) != len(self.v):
                if len(o) != 1 and len(self.v) != 1:
                    raise ValueError("operands could not be broadcast together")
                if not o or not self.v:
                    raise Unsupported("broadcast of integer vectors")
                n = max(len(o), len(self.v))
                o = o * n if len(o) == 1 else o
                return cls([f(a, b) for a, b in zip(self.v * n if len(self.v) == 1 else self.v, o)])
        elif isint(o):
            o = [o] * len(self.v)
        else:
            raise Unsupported("integer vector with something else")
        if not all(isint(b) for b in o):
            raise Unsupported("integer vector with something else")
        return cls([f(a, b) for a, b in zip(self.v, o)])

    def __lt__(self, o): return self._z(o, lambda a, b: a < b, BVec)
    def __le__(self, o): return self._z(o, lambda a, b: a <= b, BVec)
    def __gt__(self, o): return self._z(o, lambda a, b: a > b, BVec)
    def __ge__(self, o): return self._z(o, lambda a, b: a >= b, BVec)
    def __eq__(self, o): return self._z(o, lambda a, b: a == b, BVec)
    def __ne__(self, o): return self._z(o, lambda a, b: a != b, BVec)
    def __add__(self, o): return self._z(o, lambda a, b: a + b, IVec)
    __radd__ = __add__
    def __sub__(self, o): return self._z(o, lambda a, b: a - b, IVec)
    def __rsub__(self, o): return self._z(o, lambda a, b: b - a, IVec)
    def __mul__(self, o): return self._z(o, lambda a, b: a * b, IVec)
    __rmul__ = __mul__

    def sum(self):
        r = 0
        for x in self.v:
            r = r + x
        return r

    def prod(self): return prod(self.v)
    def min(self): return smin(*self.v)
    def max(self): return smax(*self.v)


class IVec0(IVec):
    """integer array without axes"""
    ndim, shape = 0, ()

    def __len__(self): raise TypeError("len() of unsized object")
    def __iter__(self): raise TypeError("iteration over a 0-d array")
    def __getitem__(self, i): raise IndexError("too many indices for array")
    def copy(self): return IVec0(list(self.v))
    def item(self): return self.v[0]
    __int__ = __index__ = lambda self: self.v[0].__index__()

    def _z(self, o, f, cls):
        x = self.v[0]
        if isinstance(o, SeqArr):
            return o._c(x, lambda a, b: f(b, a), "")
        if isinstance(o, IVec0):
            o = o.v[0]
        if isint(o):
            return cls([f(x, o)]) if cls is BVec else IVec0([f(x, o)])
        if isinstance(o, IVec):
            return cls([f(x, b) for b in o.v])
        return NotImplemented


class BVec(IVec):
    """1-d boolean array with a known number of entries"""

    def _b(self): return [Zb(x) for x in self.v]

    def all(self):
        return SymBool(z3.And(*self._b()))

    def any(self):
        return SymBool(z3.Or(*self._b()))

    def __invert__(self): return BVec([SymBool(z3.Not(b)) for b in self._b()])

    def __and__(self, o): return BVec([SymBool(z3.And(a, b)) for a, b in zip(self._b(), o._b())])

    def __or__(self, o): return BVec([SymBool(z3.Or(a, b)) for a, b in zip(self._b(), o._b())])

    def _z(self, o, f, cls):
        raise Unsupported("arithmetic with a boolean vector")


class SeqArr:
    """1-d integer array of symbolic length"""

    def __init__(self, s):
        self.s = s

    def _c(self, o, f, name):
        if not isinstance(o, SeqArr):
            if isinstance(o, IVec0):
                o = o.v[0]
            if isint(o):
                o = SeqArr(mkseq([Gen(0, self.s.zlen(), lambda k: o)], "list"))
            else:
                raise Unsupported("array comparison")
        return SeqMask(self, o, f)

    def __lt__(self, o): return self._c(o, lambda a, b: a < b, "<")
    def __gt__(self, o): return self._c(o, lambda a, b: a > b, ">")
    def __le__(self, o): return self._c(o, lambda a, b: a <= b, "<=")
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b, ">=")


class SeqMask:
    def __init__(self, a, b, f):
        self.a, self.b, self.f = a, b, f

    def all(self):
        return OpaqueAll(self)

    def __invert__(self):
        def neg(a, b):
            c = self.f(a, b)
            return SymBool(z3.Not(c.z)) if isinstance(c, SymBool) else not c
        return SeqMask(self.a, self.b, neg)

    def any(self):
        return not bool(OpaqueAll(~self))


class OpaqueAll:
    def __init__(self, m):
        self.m = m

    def __bool__(self):
        a, b = self.m.a.s, self.m.b.s
        n = a.zlen()
        if not cx.valid(n == b.zlen()):
            raise Unsupported("comparison of arrays of other lengths")
        if len(a.parts) != 1 or len(b.parts) != 1:
            return cx.choose(2, "all") == 0

        def cond(k):
            c = self.m.f(a.parts[0].at(k), b.parts[0].at(k))
            return c.z if isinstance(c, SymBool) else z3.BoolVal(bool(c))
        return seqs.decide_all(cond, n, "all")


def asarray(x, dtype=None, **k):
    return x if isinstance(x, Arr) else array(x)


def npmin(x, *a, **k):
    if isinstance(x, Arr):
        raise Unsupported("min of array")
    return smin(*list(x))


def npmax(x, *a, **k):
    if isinstance(x, Arr):
        raise Unsupported("max of array")
    return smax(*list(x))


def mod(a, b, **k):
    if hasattr(a, "key") or hasattr(b, "key"):
        return a % b
    a, b = A.scalar_of(a), A.scalar_of(b)
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    if isint(a) and isint(b):
        return a % b
    raise Unsupported("mod")


def transpose(a, axes=None):
    a = as_arr(a)
    return a.transpose() if axes is None else a.transpose(axes)


def minimum(a, b):
    if isint(a) and isint(b):
        return smin(a, b)
    raise Unsupported("minimum")


def maximum(a, b):
    if isint(a) and isint(b):
        return smax(a, b)
    raise Unsupported("maximum")


def flip(a, axis=None):
    if axis is None:
        return a[tuple([slice(None, None, -1)] * len(a.axes))]
    k = [slice(None)] * len(a.axes)
    k[axis] = slice(None, None, -1)
    return a[tuple(k)]


def ceil_(x):
    import math
    if isinstance(x, SymInt):
        return x
    if isinstance(x, (int, float)):
        return math.ceil(x)
    raise Unsupported("ceil of a symbolic number")


class MathShim(types.ModuleType):
    """the standard module on concrete numbers, the contracts of this file on symbolic ones"""

    def __init__(self):
        import math
        super().__init__("math")
        for n in dir(math):
            if not n.startswith("_"):
                setattr(self, n, getattr(math, n) if not callable(getattr(math, n)) else self._wrap(n, getattr(math, n)))

    @staticmethod
    def _wrap(n, f):
        def g(*a, **k):
            if all(isinstance(x, (int, float)) for x in a):
                return f(*a, **k)
            if n in ("ceil", "floor", "trunc"):
                return ceil_(*a)
            if n == "sqrt":
                return sqrt(*a)
            if n == "prod":
                return prod(*a, **k)
            if n == "fabs":
                return absolute(*a)
            raise Unsupported(f"math.{n} of a symbolic number")
        return g


def npindices(shape, **k):
    if isinstance(shape, Seq):
        raise Unsupported("indices of symbolic order")
    axes = A.shape_axes(shape)
    rows = []
    for i, ax in enumerate(axes):
        z = ax[0].z if ax else z3.IntVal(0)
        rows.append(Arr(axes, kind="i", ip=(("z", None, z, None),)))
    return IndexGrid(rows, axes)


class IndexGrid:
    def __init__(self, rows, axes):
        self.rows, self.axes = rows, axes

    def reshape(self, *s):
        if len(s) == 1:
            s = s[0]
        if len(s) == 2 and (s[1] == -1) and isint(s[0]) and cx.int_eq(Z(s[0]), len(self.rows)):
            flat = tuple(v for a in self.axes for v in a)
            out = []
            for r in self.rows:
                out.append(Arr([flat], kind="i", ip=r.ip).fresh())
            return Rows(out)
        raise Unsupported("indices grid")

    def __getattr__(self, n):
        raise Unsupported("indices grid")


class Rows(Arr):
    """2-d integer array with separately known rows"""
    __slots__ = ("rowlist",)

    def __init__(self, rows):
        g = A.stack_ints(rows)
        Arr.__init__(self, g.axes, kind="i", ip=g.ip, meta=g.meta)
        self.rowlist = rows

    def copy(self, *a, **k):
        return Rows([r.copy() for r in self.rowlist])

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    @property
    def shape(self):
        return (len(self.rowlist), mk(vsize(self.rowlist[0].axes[0])))

    def __len__(self):
        return len(self.rowlist)

    def __iter__(self):
        return iter(self.rowlist)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Rows(self.rowlist[i])
        if isinstance(i, int):
            return self.rowlist[i]
        raise Unsupported("index grid indexing")


class SymRows(Arr):
    """2-d integer array with a symbolic number of rows"""
    __slots__ = ("seq",)

    def __init__(self, seq):
        w = A.Var(A.Fac(size=seq.zlen()))
        if len(seq.parts) != 1:
            raise Unsupported("stack of a symbolic sequence")
        r = seq.parts[0].at(w.z)
        if not isinstance(r, Arr) or r.kind != "i" or len(r.axes) != 1:
            raise Unsupported("stack of a symbolic sequence")
        r = r.fresh()
        Arr.__init__(self, [(w,)] + r.axes, kind="i", ip=r.ip)
        self.seq = Seq(seq.parts, "tuple")

    def copy(self, *a, **k):
        return SymRows(self.seq)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def rows(self):
        return self.seq

    def __getitem__(self, i):
        j = None
        if isinstance(i, tuple) and len(i) == 2:
            i, j = i
        if isinstance(i, slice):
            r = rows_of(self.seq[i])
            if j is None or isinstance(j, slice) and j == slice(None):
                return r
            return rows_of(seqs.mapseq(lambda x: x[j], seq_of(r.seq if isinstance(r, SymRows) else r.rowlist), "tuple"))
        if isint(i):
            r = self.seq[i]
            return r if j is None else r[j]
        raise Unsupported("index grid indexing")


def rows_of(s):
    s = seq_of(s)
    return Rows(list(s.tolist())) if s.concrete() else SymRows(s)


A.rows_of = rows_of


def build(contracts=None):
    """namespace of shim modules"""
    np = Mod("numpy")
    d = dict(
        ndarray=Arr, einsum=A.einsum, transpose=transpose, zeros=A.zeros, ones=A.ones, eye=A.eye, identity=A.eye, diag=A.diag,
        concatenate=A.concatenate, stack=A.stack, tensordot=A.tensordot, dot=A.npdot, matmul=A.matmul, sum=A.npsum,
        prod=prod, sqrt=sqrt, abs=absolute, absolute=absolute, all=npall, any=npany, array=array, asarray=asarray,
        where=A.where, take=A.take, ravel_multi_index=A.ravel_multi_index, unravel_index=A.unravel_index, reshape=lambda a, s, **k: as_arr(a).reshape(s, **k),
        indices=npindices, arange=A.arange, linspace=A.linspace, meshgrid=A.meshgrid, mod=mod, inf=float("inf"), pi=3.141592653589793, newaxis=None,
        min=npmin, max=npmax, minimum=minimum, maximum=maximum, flip=flip, copy=lambda a, **k: as_arr(a).copy(),
        multiply=lambda a, b: a * b, add=lambda a, b: a + b, subtract=lambda a, b: a - b, ceil=ceil_,
        vdot=lambda a, b: A.npdot(as_arr(a).ravel(), as_arr(b).ravel()),
        ascontiguousarray=lambda a, **k: as_arr(a), size=lambda a: a.size, ndim=lambda a: a.ndim, shape=lambda a: a.shape,
        zeros_like=lambda a, **k: A.zeros(a.shape), float64=float, int64=int, uint64="uint64", int_="int64", empty=_empty,
        swapaxes=lambda a, i, j: a.swapaxes(i, j), square=lambda a: a * a, ravel=lambda a: a.ravel(),
        array_equal=array_equal, allclose=lambda a, b, **k: OpaqueMask("==", as_arr(a), as_arr(b)).all(),
        bool_=bool, integer=int, number=float, nonzero=_nonzero, moveaxis=_moveaxis, expand_dims=_expand, hstack=_hstack, vstack=_vstack, outer=_outer,
        inner=_inner, trace=lambda a: A.scalar_of(A.npsum(A.diag(a))), squeeze=lambda a: a.squeeze(), newaxis_=None,
    )
    for k, v in d.items():
        setattr(np, k, v)
    la = Mod("numpy.linalg")
    for k, v in dict(qr=_qr, svd=_svd, norm=norm, lstsq=lstsq, pinv=pinv, LinAlgError=type("LinAlgError", (ValueError,), {})).items():
        setattr(la, k, v)
    np.linalg = la
    rnd = Mod("numpy.random")
    np.random = rnd
    ty = Mod("numpy.typing")
    ty.NDArray = _Sub()
    ty.ArrayLike = _Sub()
    np.typing = ty
    sp = Mod("scipy")
    spl = Mod("scipy.linalg")
    for k, v in dict(qr=_scipy_qr, svd=_svd, norm=norm, lstsq=lstsq, pinv=pinv, solve_triangular=solve_triangular).items():
        setattr(spl, k, v)
    sp.linalg = spl
    return {"numpy": np, "numpy.linalg": la, "numpy.random": rnd, "numpy.typing": ty, "scipy": sp, "scipy.linalg": spl}


def _empty(*a, **k):
    raise Unsupported("np.empty")


def _nonzero(m):
    return A.where(m)


def _moveaxis(a, s, d):
    n = len(a.axes)
    s, d = s % n, d % n
    p = [i for i in range(n) if i != s]
    p.insert(d, s)
    return a.transpose(tuple(p))


def _expand(a, axis):
    n = len(a.axes) + 1
    axis = axis % n
    a = a.fresh()
    a.axes.insert(axis, ())
    a.view = "view"
    return a


def _hstack(xs):
    xs = [as_arr(x) for x in xs]
    return A.concatenate(xs, 0 if len(xs[0].axes) == 1 else 1)


def _vstack(xs):
    xs = [as_arr(x) for x in xs]
    if len(xs[0].axes) == 1:
        return A.stack(xs)
    return A.concatenate(xs, 0)


def _outer(a, b):
    return A.einsum("a,b->ab", as_arr(a).ravel(), as_arr(b).ravel())


def _inner(a, b):
    if len(as_arr(a).axes) == 1:
        return A.npdot(a, b)
    raise Unsupported("inner")
