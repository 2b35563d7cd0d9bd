"""Symbolic numpy arrays: lambda expressions over index variables with symbolic ranges."""
from __future__ import annotations
import itertools
from fractions import Fraction
import z3
from . import term as T
from .term import Var, Fac, Expr, Term, Atom, Family
from .core import cx, Z, Zb, mk, SymInt, SymBool, Unsupported, Refuted, isint, prod_term, _prod
from .seqs import Seq, Gen, mkseq, of as seq_of

_ids = itertools.count()


class Star:
    """A block of axes (the modes of an interval), one index variable per mode interval."""
    __slots__ = ("vs",)

    def __init__(self, vs):
        self.vs = tuple(vs)


class Store:
    __slots__ = ("label", "frozen", "version", "id", "born")

    def __init__(self, label=None, frozen=False):
        self.label, self.frozen, self.version, self.id = label, frozen, 0, next(_ids)
        self.born = len(cx.loop_stack)


def vsize(vs):
    r = z3.IntVal(1)
    for v in vs:
        r = r * v.fac.size
    return z3.simplify(r, som=True)


def canon_axis(vs):
    """drop size-one variables (they must not occur: substituted by 0)"""
    return tuple(vs)


def new_axis(size, mode=None, iv=None):
    """axis tuple for a size; size 1 -> ()"""
    if iv is not None:
        f = T.known_single(Fac(iv=iv))
        return (Var(f),) if f is not None else ()
    s = z3.simplify(Z(size))
    if z3.is_int_value(s) and s.as_long() == 1:
        return ()
    if mode is None and z3.is_app(s) and s.num_args() == 1 and s.decl().name().startswith("n<") and s.decl().name()[2:-1] in _prod:
        mode = (s.decl().name()[2:-1], s.arg(0))        # the size of a mode: merges with its neighbours
    return (Var(Fac(size=s, mode=mode)),)


def pcs(vs):
    return tuple(v.piece() for v in vs)


def unify(A, B):
    """Common refinement of two variable tuples over equal ranges.
    Returns (common vars, mapA, mapB) with map: Var -> pieces."""
    A, B = list(A), list(B)
    out, ma, mb = [], {}, {}

    def put(m, v, vs):
        m[v] = m.get(v, ()) + pcs(vs)
    # variables already split keep a queue of sub-vars
    while A and B:
        x, y = A[0], B[0]
        r = _match1(x, y)
        if r is not None:
            v = Var(r)
            out.append(v)
            put(ma, x, [v]); put(mb, y, [v])
            A.pop(0); B.pop(0)
            continue
        done = False
        # drop provably-one factors
        for L, m in ((A, ma), (B, mb)):
            if cx.int_eq(L[0].fac.size, 1) and not L[0].fac.flt:
                put(m, L[0], [])
                if L[0].z is not None:
                    m[L[0]] = (("z", z3.IntVal(1), z3.IntVal(0), L[0].fac.mode),)
                L.pop(0)
                done = True
                break
        if done:
            continue
        for one, many, m1, m2 in ((A, B, ma, mb), (B, A, mb, ma)):
            x = one[0]
            for q in range(2, len(many) + 1):
                ys = many[:q]
                if x.fac.iv:
                    if covers(x.fac.iv, ys):
                        break
                elif all(not y.fac.iv for y in ys) and cx.int_eq(x.fac.size, vsize(ys)):
                    break
            else:
                continue
            vs = [Var(y.fac) for y in ys]
            put(m1, x, vs)
            for y, v in zip(ys, vs):
                put(m2, y, [v])
            out.extend(vs)
            del one[0]
            del many[:q]
            done = True
            break
        if done:
            continue
        # split an interval at the other's end
        for L, M, m1 in ((A, B, ma), (B, A, mb)):
            x, y = L[0], M[0]
            if x.fac.iv and (y.fac.iv or y.fac.mode):
                b, lo, hi, rv = x.fac.iv
                yb, ylo, yhi = (y.fac.iv[0], y.fac.iv[1], y.fac.iv[2]) if y.fac.iv else (y.fac.mode[0], y.fac.mode[1], y.fac.mode[1] + 1)
                if b != yb:
                    continue
                cut = None
                if not rv and cx.int_eq(lo, ylo) and cx.valid(z3.And(yhi > lo, yhi < hi)):
                    cut = yhi
                elif rv and cx.int_eq(hi, yhi) and cx.valid(z3.And(ylo > lo, ylo < hi)):
                    cut = ylo
                if cut is None:
                    continue
                vs = T.split_ivar(x, cut)
                # later refinement of the halves must reach m1[x]: use them as stand-ins
                sub_out, sa, sb = unify(vs + L[1:], M)
                out.extend(sub_out)
                comp = ()
                for v in vs:
                    comp += sa[v]
                m1[x] = comp
                for v in L[1:]:
                    m1[v] = sa[v]
                m2 = mb if m1 is ma else ma
                for v in M:
                    m2[v] = sb[v]
                return out, ma, mb
        raise ShapeMismatch(A[0], B[0])
    for L, m in ((A, ma), (B, mb)):
        for v in L:
            if v.fac.iv and T.known_single(v.fac) is None:
                m[v] = ()
            elif cx.int_eq(v.fac.size, 1):
                m[v] = (("z", z3.IntVal(1), z3.IntVal(0), v.fac.mode),) if v.z is not None else ()
            else:
                raise ShapeMismatch(v, None)
    return out, ma, mb


class ShapeMismatch(Exception):
    pass


def covers(iv, ys):
    b, lo, hi, rv = iv
    seq = list(reversed(ys)) if rv else ys
    p = lo
    for y in seq:
        if y.fac.iv:
            if y.fac.iv[0] != b or y.fac.iv[3] != rv or not cx.int_eq(y.fac.iv[1], p):
                return False
            p = y.fac.iv[2]
        elif y.fac.mode and y.fac.mode[0] == b and cx.int_eq(y.fac.mode[1], p):
            p = z3.simplify(y.fac.mode[1] + 1)
        else:
            return False
    return cx.int_eq(p, hi)


def _match1(x, y):
    fx, fy = x.fac, y.fac
    if fx.flt or fy.flt:
        if fx.flt and fy.flt:
            z = z3.Int(cx.fresh("q"))
            if cx.int_eq(fx.flt[0], fy.flt[0]) and cx.valid(fx.flt[1](z) == fy.flt[1](z)):
                return fx
        return None
    if fx.iv and fy.iv:
        return fx if T.same_iv(fx, fy) else None
    if fx.iv or fy.iv:
        f, g = (fx, fy) if fx.iv else (fy, fx)
        k = T.known_single(f)
        if k is not None and not k.iv and cx.int_eq(k.size, g.size):
            return Fac(size=g.size, mode=g.mode or k.mode)
        return None
    if cx.int_eq(fx.size, fy.size):
        return fx if fx.mode or not fy.mode else fy
    return None


def decompose(z, vs):
    """flat index z of a composite axis -> pieces per variable"""
    if len(vs) == 1:
        v = vs[0]
        if v.fac.iv:
            raise Unsupported("flat integer index into a multi-mode axis")
        return {v: (("z", v.fac.size, z, v.fac.mode),)}
    out, rest = {}, z
    for i in range(len(vs) - 1, 0, -1):
        v = vs[i]
        if v.fac.iv:
            raise Unsupported("flat integer index into a multi-mode axis")
        out[v] = (("z", v.fac.size, z3.simplify(rest % v.fac.size), v.fac.mode),)
        rest = rest / v.fac.size
    v = vs[0]
    out[v] = (("z", v.fac.size, z3.simplify(rest), v.fac.mode),)
    return out


def index_axis(vs, ps):
    """Substitution that indexes the axis `vs` with the composite index pieces ps."""
    vs, ps = list(vs), list(ps)
    if len(vs) == 1 and not vs[0].fac.iv:
        return {vs[0]: tuple(ps)} if len(ps) != 1 else {vs[0]: (retag(ps[0], vs[0]),)}
    if not vs:
        return {}
    m = {}
    q = list(ps)
    ok = True
    for i, v in enumerate(vs):
        acc = []
        sz = z3.IntVal(1)
        if v.fac.iv:
            # take pieces until the interval is covered
            b, lo, hi, rv = v.fac.iv
            got = []
            while q:
                got.append(q.pop(0))
                if pieces_cover(v.fac.iv, got):
                    break
            if not pieces_cover(v.fac.iv, got):
                ok = False
                break
            m[v] = tuple(got)
            continue
        while q and not (acc and cx.int_eq(sz, v.fac.size)):
            p = q.pop(0)
            acc.append(p)
            sz = z3.simplify(sz * T.piece_size(p))
        if not acc or not cx.int_eq(sz, v.fac.size):
            ok = False
            break
        m[v] = tuple(acc)
    if ok and not q:
        return m
    if all(p[0] == "z" for p in ps):
        return decompose(T.flat_index(ps), vs)
    raise Unsupported("index factorisation")


def pieces_cover(iv, ps):
    b, lo, hi, rv = iv
    p = hi if rv else lo
    for x in ps:
        bb = T.piece_bounds(x)
        base = x[3][0] if x[0] == "z" and x[3] else (x[1].fac.iv[0] if x[0] == "v" else (x[1] if x[0] == "g" else None))
        if bb is None or base != b:
            return False
        if rv:
            if not cx.int_eq(bb[1], p):
                return False
            p = bb[0]
        else:
            if not cx.int_eq(bb[0], p):
                return False
            p = bb[1]
    return cx.int_eq(p, lo if rv else hi)


def retag(p, v):
    if p[0] == "z" and p[3] is None and v.fac.mode:
        return (p[0], p[1], p[2], v.fac.mode)
    return p


# =============================================================================== scalars
class SymScalar:
    """A real number given by an expression without free index variables."""
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    @staticmethod
    def of(x):
        if isinstance(x, SymScalar):
            return x
        if isinstance(x, Arr):
            if x.axes:
                raise Unsupported("array used as a scalar")
            return SymScalar(x.body)
        if isinstance(x, SymInt):
            return SymScalar(T.scal(("int", x.z.sexpr(), x.z)) if not z3.is_int_value(x.z) else T.const(x.z.as_long()))
        if isinstance(x, bool):
            return SymScalar(T.const(int(x)))
        if isinstance(x, (int, Fraction)):
            return SymScalar(T.const(x))
        if isinstance(x, float):
            if x != x or x in (float("inf"), float("-inf")):
                raise Unsupported("non-finite scalar")
            return SymScalar(T.const(Fraction(x)))
        try:
            import numpy as _np
            if isinstance(x, _np.generic):
                return SymScalar.of(x.item())
        except Exception:
            pass
        raise Unsupported(f"scalar of type {type(x).__name__}")

    def norm(self):
        self.e = T.normalize(self.e)
        return self

    def _b(self, o, f):
        if isinstance(o, Arr) or isinstance(o, (list, tuple, Seq)):
            return NotImplemented
        if not _scalarlike(o):
            return NotImplemented
        return SymScalar(f(self.e, SymScalar.of(o).e))

    def __add__(self, o): return self._b(o, T.add)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: T.add(a, T.scale(b, -1)))
    def __rsub__(self, o): return self._b(o, lambda a, b: T.add(b, T.scale(a, -1)))
    def __mul__(self, o): return self._b(o, T.mul)
    __rmul__ = __mul__
    def __neg__(self): return SymScalar(T.scale(self.e, -1))
    def __pos__(self): return self

    def inv(self):
        e = T.normalize(self.e)
        if not e.t:
            raise ZeroDivisionError("division by zero")
        if len(e.t) == 1 and not e.t[0].at and not e.t[0].bv and not e.t[0].g:
            t = e.t[0]
            return SymScalar(Expr([Term(1 / t.c, tuple((n, -p) for n, p in t.sc))]))
        return SymScalar(T.scal(intern("val", e), -1))

    def __truediv__(self, o):
        if not _scalarlike(o):
            return NotImplemented
        return self * SymScalar.of(o).inv()

    def __rtruediv__(self, o):
        return SymScalar.of(o) * self.inv()

    def __pow__(self, p):
        if isinstance(p, int) and 0 <= p <= 6:
            r = SymScalar(T.const(1))
            for _ in range(p):
                r = r * self
            return r
        if isinstance(p, int) and p < 0:
            return (self ** (-p)).inv()
        if p == 0.5:
            return fn("sqrt", self)
        return SymScalar(T.scal(intern(f"pow{p}", T.normalize(self.e))))

    def __abs__(self):
        return fn("abs", self)

    def _cmp(self, op, o):
        if not _scalarlike(o) and not (isinstance(o, float)):
            return NotImplemented
        return OpaqueBool(op, self, o)

    def __eq__(self, o):
        r = self._cmp("==", o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp("==", o)
        return True if r is NotImplemented else not r

    def __lt__(self, o): return self._cmp("<", o)
    def __le__(self, o): return self._cmp("<=", o)
    def __gt__(self, o): return self._cmp(">", o)
    def __ge__(self, o): return self._cmp(">=", o)
    __hash__ = None

    def __bool__(self):
        return not bool(self == 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic scalar")

    def item(self): return self
    def copy(self): return self
    def astype(self, *a, **k): return self
    def __deepcopy__(self, memo): return self
    def __format__(self, s): return "<scalar>"
    shape = ()
    ndim = 0

    def reshape(self, *shape):
        return as_arr(self).reshape(*shape)


def _scalarlike(o):
    import numbers
    return isinstance(o, (SymScalar, SymInt, numbers.Real, Fraction)) or (isinstance(o, Arr) and not o.axes)


def as_int(e):
    """the integer that the expression is, if it is the value of one"""
    if not e.t:
        return z3.IntVal(0)
    if len(e.t) != 1 or e.t[0].at or e.t[0].bv or e.t[0].g or getattr(e.t[0].c, "denominator", 1) != 1:
        return None
    z = z3.IntVal(int(e.t[0].c))
    for s, p in dict(e.t[0].sc).items():
        if not (isinstance(s, tuple) and s[0] == "int") or not isinstance(p, int) or p < 0:
            return None
        for _ in range(p):
            z = z * s[2]
    return z3.simplify(z)


def intern(fname, e):
    """Name of the value fname(e); equal arguments give the same name."""
    z = as_int(e)
    for (f, p, n) in cx.interned:
        if f == fname and T.equal(p, e):
            return n
        if f == fname and z is not None and as_int(p) is not None and cx.int_eq(z, as_int(p)):
            return n
    n = ("fn", fname, len(cx.interned))
    cx.interned.append((fname, e, n))
    return n


def fn(name, s):
    s = SymScalar.of(s)
    e = T.normalize(s.e)
    if not e.t:
        return SymScalar(Expr())
    if all(not t.at and not t.sc and not t.bv and not t.g for t in e.t):
        c = sum(t.c for t in e.t)
        if name == "abs":
            return SymScalar(T.const(abs(c)))
        if name == "sqrt" and c in (0, 1):
            return SymScalar(T.const(c))
    return SymScalar(T.scal(intern(name, e)))


def entrywise(fname, a):
    """fname applied to every entry: an array known by the function and the entries of its argument."""
    a = as_arr(a)
    if a.has_star() or a.kind not in "fi":
        raise Unsupported(f"elementwise {fname}")
    a = a.fresh()
    if not a.allvars():
        s = SymScalar.of(mk(T.flat_index(a.ip)) if a.kind == "i" else SymScalar(a.body))
        return Arr(a.axes, (s.inv() if fname == "inv" else fn(fname, s)).e)
    vs = [v for ax in a.axes for v in ax]
    if any(v.z is None for v in vs):
        raise Unsupported(f"elementwise {fname} along a block of modes")
    c = z3.simplify(T.flat_index(a.ip)) if a.kind == "i" else T.normalize(a.body)
    for (f, ws, kind, c0, fam) in cx.entrywise:
        if f != fname or kind != a.kind or len(ws) != len(vs) or not all(cx.int_eq(v.fac.size, w.fac.size) for v, w in zip(vs, ws)):
            continue
        m = {w: (v.piece(),) for v, w in zip(vs, ws)}
        if kind == "i":
            same = cx.valid(z3.Implies(z3.And([T.in_range(v) for v in vs]), z3.substitute(c0, *[(w.z, v.z) for v, w in zip(vs, ws)]) == c))
        else:
            same = T.equal(T.subst(c0, m), c)
        if same:
            break
    else:
        fam = Family(f"{fname}#{len(cx.entrywise)}")
        cx.entrywise.append((fname, vs, a.kind, c, fam))
    return Arr(a.axes, Expr([Term(1, at=(Atom(fam, (), [pcs(vs)]),))]))


def linspace(lo, hi, num=50, **k):
    if k:
        raise Unsupported("linspace options")
    lo, hi = T.normalize(SymScalar.of(lo).e), T.normalize(SymScalar.of(hi).e)
    if not cx.valid(Z(num) >= 0):
        raise Unsupported("number of samples")
    for (a, b, n, fam) in cx.linspaces:
        if T.equal(a, lo) and T.equal(b, hi) and cx.int_eq(n, Z(num)):
            break
    else:
        fam = Family(f"linspace#{len(cx.linspaces)}")
        cx.linspaces.append((lo, hi, Z(num), fam))
    return opaque("linspace", [num], fam=fam)


def meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    if indexing not in ("xy", "ij"):
        raise ValueError("Valid values for `indexing` are 'xy' and 'ij'.")
    xs = [as_arr(x).ravel().fresh() for x in xs]
    n = len(xs)
    pos = list(range(n))
    if indexing == "xy" and n > 1:
        pos[0], pos[1] = 1, 0
    out = []
    for i, x in enumerate(xs):
        axes = [()] * n
        for j, y in enumerate(xs):
            if j == i:
                axes[pos[j]] = x.axes[0]
            elif not sparse:
                axes[pos[j]] = y.fresh().axes[0]
        out.append(Arr(axes, x.body, kind=x.kind, ip=x.ip, zb=x.zb))
    return out


class OpaqueBool:
    """Truth value of a comparison of reals: explored both ways, equal questions get equal answers."""
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def __bool__(self):
        return decide_cmp(self.op, self.a, self.b)

    def __invert__(self):
        return not bool(self)

    def all(self): return self
    def any(self): return self


def decide_cmp(op, a, b):
    if isinstance(b, float) and (b == float("inf") or b == float("-inf")):
        pos = b > 0
        return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False}[op]
    d = T.normalize((SymScalar.of(a) - SymScalar.of(b)).e)
    if all(not t.at and not t.sc and not t.bv and not t.g for t in d.t):
        c = sum((t.c for t in d.t), Fraction(0))
        return {"==": c == 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
    for (o, e, v) in cx.events:
        if o == op and T.equal(e, d):
            return v
    v = cx.choose(2, ("cmp", op)) == 0
    cx.events.append((op, d, v))
    return v


# =============================================================================== arrays
class Arr:
    __array_priority__ = 2000
    __slots__ = ("axes", "body", "kind", "ip", "zb", "store", "view", "meta", "__weakref__")

    def __init__(self, axes, body=None, kind="f", ip=None, zb=None, store=None, view=None, meta=None):
        self.axes = list(axes)
        self.body, self.kind, self.ip, self.zb = body, kind, ip, zb
        self.store = store or Store()
        self.view = view          # None: owns its data; "view": shares it; "maybe": reshape
        self.meta = meta or {}

    # ---------------------------------------------------------------- shape
    def has_star(self):
        return any(isinstance(a, Star) for a in self.axes)

    @property
    def shape(self):
        if not self.has_star():
            return tuple(mk(vsize(a)) for a in self.axes)
        parts = []
        for a in self.axes:
            if isinstance(a, Star):
                for v in a.vs:
                    if v.fac.iv:
                        b, lo, hi, rv = v.fac.iv
                        n = T.prod_fn(b)[1]
                        parts.append(Gen(lo, hi, (lambda k, n=n: mk(n(k))), rv, ("n", b)))
                    else:
                        parts.append(("e", mk(v.fac.size)))
            else:
                parts.append(("e", mk(vsize(a))))
        return mkseq(parts, "tuple")

    @property
    def ndim(self):
        s = self.shape
        return len(s) if isinstance(s, tuple) else mk(s.zlen())

    @property
    def size(self):
        return mk(vsize([v for a in self.axes for v in (a.vs if isinstance(a, Star) else a)]))

    @property
    def dtype(self):
        return {"f": DT.f8, "i": DT.i8, "b": DT.b1, "o": DT.b1}[self.kind]

    def __len__(self):
        s = vsize(self.axes[0])
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported("native len of an array with a symbolic first axis")

    def zlen(self):
        return vsize(self.axes[0])

    def allvars(self):
        return [v for a in self.axes for v in (a.vs if isinstance(a, Star) else a)]

    # ---------------------------------------------------------------- values
    def sub(self, m, axes, view=None):
        """same values with index variables substituted"""
        if self.kind == "f":
            return Arr(axes, T.subst(self.body, m), "f", store=self.store if view else None, view=view or None)
        pairs = [(v.z, T.flat_index(p)) for v, p in m.items() if v.z is not None]
        if self.kind == "i":
            ip = T.subst_atom(Atom(None, (), (self.ip,)), m, pairs).slots[0]
            return Arr(axes, kind="i", ip=ip, store=self.store if view else None, view=view or None)
        if self.kind == "b":
            return Arr(axes, kind="b", zb=z3.simplify(z3.substitute(self.zb, *pairs)) if pairs else self.zb)
        raise Unsupported("operation on an opaque mask")

    def fresh(self):
        """alpha-renamed copy (fresh binders)"""
        m, axes = {}, []
        for a in self.axes:
            vs = []
            for v in (a.vs if isinstance(a, Star) else a):
                nv = Var(v.fac)
                m[v] = (nv.piece(),)
                vs.append(nv)
            axes.append(Star(vs) if isinstance(a, Star) else tuple(vs))
        if self.kind == "o":
            return self
        r = self.sub(m, axes)
        r.store, r.view, r.meta = self.store, self.view, self.meta
        return r

    def at(self, slots):
        """expression at the given composite indices (one pieces tuple per axis)"""
        m = {}
        for a, ps in zip(self.axes, slots):
            vs = a.vs if isinstance(a, Star) else a
            m.update(index_axis(vs, ps))
        return T.subst(self.as_float().body, m)

    def as_float(self):
        if self.kind == "f":
            return self
        if self.kind == "b":
            return Arr(self.axes, Expr([Term(1, g=(self.zb,))]))
        if self.kind == "i":
            z = z3.simplify(T.flat_index(self.ip))
            if z3.is_int_value(z):
                return Arr(self.axes, T.const(z.as_long()))
            raise Unsupported("integer array used as real numbers")
        raise Unsupported("opaque mask used as numbers")

    def copy(self, *a, **k):
        r = self.fresh()
        r.store, r.view = Store(), None
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    __copy__ = copy

    def astype(self, dt, *a, **k):
        d = str(dt)
        if self.kind == "i" and ("int" in d):
            return self.copy()
        if self.kind == "f" and ("float" in d or dt is float):
            return self.copy()
        raise Unsupported(f"astype {d}")

    # ---------------------------------------------------------------- structure
    def transpose(self, *perm):
        if len(perm) == 1 and not isint(perm[0]):
            perm = perm[0]
        if isinstance(perm, Seq):
            return transpose_seq(self, perm)
        if not perm or perm is None or perm == (None,):
            if self.has_star():
                r = flip(self.fresh())
                r.store, r.view = self.store, "view"
                return r
            perm = tuple(range(len(self.axes)))[::-1]
        if self.has_star():
            return transpose_seq(self, Seq([("e", x) for x in perm], "tuple"))
        perm = [p.__index__() for p in perm]
        if sorted(p % len(self.axes) for p in perm) != list(range(len(self.axes))):
            raise ValueError("axes don't match array")
        r = self.fresh()
        r.axes = [r.axes[p] for p in perm]
        r.view = "view"
        r.meta = {}
        return r

    @property
    def T(self):
        return self.transpose()

    def swapaxes(self, a, b):
        p = list(range(len(self.axes)))
        p[a], p[b] = p[b], p[a]
        return self.transpose(tuple(p))

    def reshape(self, *shape, order="C", **kw):
        if order != "C" or kw:
            raise Unsupported("reshape order")
        if len(shape) == 1 and not isint(shape[0]):
            shape = shape[0]
        return reshape(self, shape)

    def ravel(self, *a):
        if a:
            raise Unsupported("ravel order")
        return reshape(self, (-1,))

    flatten = ravel

    def squeeze(self, *a, **k):
        if a or k:
            raise Unsupported("squeeze with axis")
        for ax in self.axes:
            if ax and cx.valid(vsize(ax) == 1) is False and not cx.valid(vsize(ax) >= 2):
                raise Unsupported("squeeze of an axis of unknown size")
        r = self.fresh()
        r.axes = [a for a in r.axes if a]
        return r

    # ---------------------------------------------------------------- arithmetic
    def _ew(self, o, f, g=None):
        return ewise(self, o, f, g)

    def __add__(self, o):
        return ewise(self, o, T.add, lambda a, b: a + b)

    def __radd__(self, o):
        return ewise(o, self, T.add, lambda a, b: a + b)

    def __sub__(self, o):
        return ewise(self, o, lambda a, b: T.add(a, T.scale(b, -1)), lambda a, b: a - b)

    def __rsub__(self, o):
        return ewise(o, self, lambda a, b: T.add(a, T.scale(b, -1)), lambda a, b: a - b)

    def __mul__(self, o):
        if self.kind == "b" and isinstance(o, Arr) and o.kind == "b":
            return self & o
        return ewise(self, o, T.mul, lambda a, b: a * b)

    def __rmul__(self, o):
        return ewise(o, self, T.mul, lambda a, b: a * b)

    def __truediv__(self, o):
        if isinstance(o, Arr) and o.axes:
            if all(z3.is_int_value(vsize(a)) and vsize(a).as_long() == 1 for a in o.axes):
                o = SymScalar(o.as_float().body)
                return self * o.inv()
            return self * entrywise("inv", o)
        return self * (1 / SymScalar.of(o))

    def __rtruediv__(self, o):
        if not self.axes:
            return SymScalar.of(o) / SymScalar(self.as_float().body)
        r = entrywise("inv", self)
        return r if isinstance(o, int) and o == 1 else r * o

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def __pow__(self, p):
        if isinstance(p, int) and 1 <= p <= 4 and self.kind == "f":
            r = self
            for _ in range(p - 1):
                r = r * self
            return r
        if isinstance(p, (int, float)) and self.kind in "fi":
            return entrywise("sqrt" if p == 0.5 else "inv" if p == -1 else f"pow{float(p)}", self)
        raise Unsupported("array power")

    def __abs__(self):
        return entrywise("abs", self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def dot(self, o):
        return npdot(self, o)

    def _inplace(self, r):
        if not isinstance(r, Arr):
            r = as_arr(r)
        write_check(self)
        # result must have the shape of self
        c, ma, mb = unify_arr(self, r)
        rr = r.sub(mb, remap_axes(r.axes, mb))
        # express over own axes
        self.axes, self.body, self.kind, self.ip, self.zb = rr.axes, rr.body, rr.kind, rr.ip, rr.zb
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    # ---------------------------------------------------------------- comparisons
    def _cmp(self, o, zf, op):
        if self.kind == "i" and (isint(o) or (isinstance(o, Arr) and o.kind == "i")):
            if isint(o):
                return Arr(self.axes, kind="b", zb=z3.simplify(zf(T.flat_index(self.ip), Z(o)))).fresh()
            return ewise(self, o, None, zf, kind="b")
        return OpaqueMask(op, self, o)

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, "==")
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b, "!=")
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, "<")
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, "<=")
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, ">")
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, ">=")

    def __hash__(self):
        return id(self)

    def __and__(self, o):
        if self.kind == "b" and o.kind == "b":
            return ewise(self, o, None, lambda a, b: z3.And(a, b), kind="b")
        raise Unsupported("&")

    def __or__(self, o):
        if self.kind == "b" and o.kind == "b":
            return ewise(self, o, None, lambda a, b: z3.Or(a, b), kind="b")
        raise Unsupported("|")

    def __invert__(self):
        if self.kind == "b":
            return Arr(self.axes, kind="b", zb=z3.Not(self.zb)).fresh()
        raise Unsupported("~")

    def __bool__(self):
        if not self.axes or all(not a for a in self.axes):
            if self.kind == "b":
                return cx.decide(self.zb)
            if self.kind == "i":
                return cx.decide(T.flat_index(self.ip) != 0)
            return bool(SymScalar(self.body))
        raise Unsupported("truth value of an array")

    # ---------------------------------------------------------------- reductions
    def sum(self, axis=None, keepdims=False, **k):
        return npsum(self, axis, keepdims)

    def all(self):
        return np_all(self)

    def any(self):
        return np_any(self)

    def prod(self, *a, **k):
        raise Unsupported("prod of array")

    def item(self):
        return scalar_of(self)

    def tolist(self):
        if self.kind == "i":
            return [x for x in self]
        raise Unsupported("tolist")

    def diagonal(self):
        raise Unsupported("diagonal")

    def __float__(self):
        raise Unsupported("float of array")

    def __index__(self):
        if self.kind == "i" and not self.axes:
            return mk(T.flat_index(self.ip)).__index__()
        raise Unsupported("array as index")

    def __iter__(self):
        n = vsize(self.axes[0])
        if z3.is_int_value(n):
            return iter([self[i] for i in range(n.as_long())])
        raise Unsupported("native iteration over an array with a symbolic first axis")

    def rows(self):
        n = vsize(self.axes[0])
        return mkseq([Gen(z3.IntVal(0), n, lambda k: self[mk(k)])], "list")

    # ---------------------------------------------------------------- indexing
    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, val):
        setitem(self, idx, val)

    def __repr__(self):
        return f"Arr{[(a.vs if isinstance(a, Star) else a) for a in self.axes]}:{self.body if self.kind == 'f' else (self.ip or self.zb)}"


class OpaqueMask:
    """Elementwise comparison of real arrays."""

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b
        self.shape = a.shape if isinstance(a, Arr) else b.shape

    def all(self):
        return OpaqueCond("all", self)

    def any(self):
        return OpaqueCond("any", self)

    def count(self):
        """number of entries for which the comparison holds; equal questions get equal answers"""
        op, a, b = self.op, as_arr(self.a), as_arr(self.b)
        if op in ("<", "<="):
            op, a, b = {"<": ">", "<=": ">="}[op], b, a
        d = a - b
        for (o, d2, c) in cx.opaque.setdefault("counts", []):
            if o == op and len(d2.axes) == len(d.axes) and all(cx.int_eq(vsize(x), vsize(y)) for x, y in zip(d.axes, d2.axes)) and arr_eq(d, d2)[0]:
                return SymInt(c)
        c = z3.Int(cx.fresh("count"))
        cx.assume(z3.And(c >= 0, c <= vsize_of_shape(d.shape)))
        cx.opaque["counts"].append((op, d, c))
        return SymInt(c)

    def sum(self, axis=None):
        if axis is not None:
            raise Unsupported("axis of a count")
        return self.count()

    def __invert__(self):
        raise Unsupported("~ of a real comparison")

    def __getattr__(self, n):
        raise Unsupported(f"real comparison mask .{n}")


class OpaqueCond:
    def __init__(self, q, m):
        self.q, self.m = q, m

    def __bool__(self):
        return cx.choose(2, "mask") == 0


class DTn:
    def __init__(self, n):
        self.name = n

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return str(o) == self.name or getattr(o, "__name__", None) == self.name

    def __hash__(self):
        return hash(self.name)


class DT:
    f8, i8, b1 = DTn("float64"), DTn("int64"), DTn("bool")


# ------------------------------------------------------------------------------- helpers
class CompInt(SymInt):
    """an integer known as a row-major composite index"""
    __slots__ = ("ip",)

    def __init__(self, z, ip):
        SymInt.__init__(self, z)
        self.ip = ip


def as_arr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, CompInt):
        return Arr([], kind="i", ip=x.ip)
    if isinstance(x, SymScalar):
        return Arr([], x.e)
    if isinstance(x, (list, tuple, Seq)):
        return stack_list(x)
    if hasattr(x, "v") and hasattr(x, "tolist"):
        return stack_list(x.tolist())
    if isint(x):
        return Arr([], kind="i", ip=(("z", None, z3.simplify(Z(x)), None),))
    return Arr([], SymScalar.of(x).e)


def IntArr0(x):
    if x.kind == "i" and not x.allvars():
        return T.flat_index(x.ip)
    raise Unsupported("array used as an integer")


def scalar_of(x):
    if isinstance(x, Arr):
        if x.allvars():
            for v in x.allvars():
                if not cx.int_eq(v.fac.size, 1):
                    raise Unsupported("array used as a scalar")
        if x.kind == "i":
            r = mk(T.flat_index(x.ip))
            return CompInt(r.z, x.ip) if len(x.ip) > 1 and isinstance(r, SymInt) else r
        if x.kind == "b":
            return SymBool(x.zb)
        return SymScalar(x.body)
    return x


def write_check(a):
    if a.store.frozen and a.view != "maybe":
        raise Refuted("frame", f"an array of {a.store.label} is modified in place")
    if a.view == "maybe" or a.store.frozen:
        raise Unsupported("in-place write through a reshape")
    if a.view == "view":
        raise Unsupported("in-place write through a view")
    if cx.loop_stack and a.store.born < len(cx.loop_stack) and not a.meta.get("loopvar"):
        raise Unsupported("loop body modifies an array the loop contract does not mention")
    a.store.version += 1
    cx.wlog.append((a, a.axes, a.body))


def remap_axes(axes, m):
    out = []
    for a in axes:
        vs = []
        for v in (a.vs if isinstance(a, Star) else a):
            if v in m:
                for p in m[v]:
                    w = p[1] if p[0] == "v" else T.bare(p)
                    if w is not None:
                        vs.append(w)
            else:
                vs.append(v)
        out.append(Star(vs) if isinstance(a, Star) else tuple(vs))
    return out


def mism(msg):
    return ValueError(msg)


def size_mismatch(a, b, what):
    """Sizes are not provably equal: a real ValueError if they can differ (none of them one), else unsupported."""
    za, zb = Z(a), Z(b)
    if cx.solver.check(za != zb, za > 1, zb > 1) == z3.sat:
        cx.assume(z3.And(za != zb, za > 1, zb > 1))
        raise ValueError(f"{what}: sizes {mk(za)} and {mk(zb)}")
    if cx.solver.check(za != zb) == z3.unsat:
        return
    raise Unsupported(f"{what}: cannot relate sizes {mk(za)} and {mk(zb)}")


def unify_axes(a, b, what="shape"):
    try:
        return unify(a, b)
    except ShapeMismatch as e:
        sa, sb = vsize(a), vsize(b)
        size_mismatch(sa, sb, what)
        raise Unsupported(f"{what}: factorisation of an axis ({a} vs {b})")


def unify_arr(a, b):
    """unify all axes of equally shaped arrays (flattened if stars are involved)"""
    if a.has_star() or b.has_star():
        return unify(a.allvars(), b.allvars())
    if len(a.axes) != len(b.axes):
        raise mism("shape mismatch")
    com, ma, mb = [], {}, {}
    for x, y in zip(a.axes, b.axes):
        c, m1, m2 = unify_axes(x, y, "elementwise")
        com.append(tuple(c))
        ma.update(m1)
        mb.update(m2)
    return com, ma, mb


def ewise(a, b, f, g=None, kind=None):
    a0, b0 = a, b
    if not isinstance(a, Arr):
        if a.__class__ in (list, tuple, Seq):
            return NotImplemented
        a = as_arr(a)
    if not isinstance(b, Arr):
        if not _scalarlike(b) and not isinstance(b, (list, tuple, Seq)):
            return NotImplemented
        if isinstance(b, (list, tuple, Seq)):
            b = stack_list(b)
        else:
            b = as_arr(b)
    a, b = a.fresh(), b.fresh()
    ints = a.kind == "i" and b.kind == "i" and g is not None
    if kind is None and not ints:
        a, b = _f(a, a0), _f(b, b0)
    ma, mb, axes = {}, {}, []
    na, nb = len(a.axes), len(b.axes)
    for i in range(max(na, nb)):
        x = a.axes[na - 1 - i] if i < na else None
        y = b.axes[nb - 1 - i] if i < nb else None
        if x is None or y is None or x == () or y == ():
            if isinstance(x, Star) or isinstance(y, Star):
                if x == () or y == ():
                    raise Unsupported("broadcasting along an unknown number of axes")
            axes.append(y if x is None or (x == () and y is not None) else x)
        elif isinstance(x, Star) or isinstance(y, Star):
            # from here on the axes have to be the same ones
            ra, rb = Arr(a.axes[:na - i], a.body).allvars(), Arr(b.axes[:nb - i], b.body).allvars()
            _, m1, m2 = unify(ra, rb)
            ma.update(m1)
            mb.update(m2)
            axes.extend(reversed(remap_axes(a.axes[:na - i], m1)))
            break
        else:
            c, m1, m2 = unify_axes(x, y, "operands could not be broadcast together")
            axes.append(tuple(c))
            ma.update(m1)
            mb.update(m2)
    axes.reverse()
    if kind == "b" or ints:
        pa = [(v.z, T.flat_index(p)) for v, p in ma.items() if v.z is not None]
        pb = [(v.z, T.flat_index(p)) for v, p in mb.items() if v.z is not None]
        va = T.flat_index(a.ip) if a.kind == "i" else a.zb
        vb = T.flat_index(b.ip) if b.kind == "i" else b.zb
        va = z3.substitute(va, *pa) if pa else va
        vb = z3.substitute(vb, *pb) if pb else vb
        r = z3.simplify(g(va, vb))
        if kind == "b":
            return Arr(axes, kind="b", zb=r)
        return Arr(axes, kind="i", ip=(("z", None, r, None),))
    e = f(T.subst(a.body, ma), T.subst(b.body, mb))
    return Arr(axes, e)


def _f(a, orig):
    if a.kind == "i" and not a.allvars():
        return Arr(a.axes, SymScalar.of(mk(T.flat_index(a.ip))).e)
    return a.as_float()


# ------------------------------------------------------------------------------- reshape
def reshape(a, shape):
    if isinstance(shape, Seq) or a.has_star():
        return reshape_star(a, shape)
    if isint(shape):
        shape = (shape,)
    shape = list(shape)
    a = a.fresh()
    vs = [v for ax in a.axes for v in ax]
    total = vsize(vs)
    unk = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if len(unk) > 1:
        raise ValueError("can only specify one unknown dimension")
    sizes = [None if i in unk else z3.simplify(Z(s), som=True) for i, s in enumerate(shape)]
    if not unk:
        p = z3.IntVal(1)
        for s in sizes:
            p = p * s
        p = z3.simplify(p, som=True)
        if not cx.int_eq(p, total):
            if cx.solver.check(p != total) == z3.sat:
                cx.assume(p != total)
                raise ValueError(f"cannot reshape array of size {mk(total)} into shape {tuple(shape)}")
            raise Unsupported(f"reshape: cannot relate sizes {total} and {p}")
    m = {}
    left = _take(vs, sizes[:unk[0]] if unk else sizes, m)
    if left is None:
        r = reread(a, vs, sizes) if not unk else None
        if r is None:
            raise Unsupported(f"reshape {a.shape} -> {tuple(shape)}")
        return r
    groups, rest = left
    if unk:
        right = _take(rest[::-1], sizes[unk[0] + 1:][::-1], m, back=True)
        if right is None:
            raise Unsupported(f"reshape {a.shape} -> {tuple(shape)}")
        rg, mid = right
        groups = groups + [tuple(mid[::-1])] + [tuple(g[::-1]) for g in rg][::-1]
    else:
        for v in rest:
            if not cx.int_eq(v.fac.size, 1):
                raise Unsupported(f"reshape {a.shape} -> {tuple(shape)}")
            if v.z is not None:
                m[v] = (("z", z3.IntVal(1), z3.IntVal(0), v.fac.mode),)
    r = a.sub(m, groups) if m else a.sub({}, groups)
    r.store, r.view = a.store, "maybe"
    return r


def reread(a, vs, sizes):
    """sizes that do not group the factors of the axes: the entry with the same flat index, segment by segment"""
    if any(v.z is None or v.fac.flt for v in vs):
        return None
    groups, m = [], {}
    i = k = 0
    while i < len(vs) or k < len(sizes):
        seg = None
        for tot in range(1, len(vs) - i + len(sizes) - k + 1):
            for j in range(min(tot, len(vs) - i) + 1):
                l = tot - j
                if l > len(sizes) - k:
                    continue
                p = z3.IntVal(1)
                for x in sizes[k:k + l]:
                    p = p * x
                if cx.int_eq(vsize(vs[i:i + j]), z3.simplify(p, som=True)):
                    seg = (j, l)
                    break
            if seg:
                break
        if seg is None:
            return None
        old, new = vs[i:i + seg[0]], sizes[k:k + seg[1]]
        m1 = {}
        t = _take(old, new, m1)
        if t is not None and all(cx.int_eq(v.fac.size, 1) for v in t[1]):
            for v in t[1]:
                if v.z is not None:
                    m1[v] = (("z", z3.IntVal(1), z3.IntVal(0), v.fac.mode),)
            m.update(m1)
            groups += t[0]
        else:
            axes = [new_axis(mk(s)) for s in new]
            flat = T.flat_index(tuple(q for ax in axes for q in pcs(ax))) if any(axes) else z3.IntVal(0)
            tail = z3.IntVal(1)
            for n, v in reversed(list(enumerate(old))):
                z = flat / tail
                if n:
                    z = z % v.fac.size
                m[v] = (("z", v.fac.size, z3.simplify(z), v.fac.mode),)
                tail = z3.simplify(tail * v.fac.size, som=True)
            groups += axes
        i, k = i + seg[0], k + seg[1]
    r = a.sub(m, groups)
    r.store, r.view = a.store, "maybe"
    return r


def _take(vs, sizes, m, back=False):
    """group variables into axes of the given sizes; splits a variable when needed"""
    q = list(vs)
    groups = []
    for s in sizes:
        if z3.is_int_value(s) and s.as_long() == 1:
            # leading provably-one variables may still follow; leave them
            groups.append(())
            continue
        acc, sz = [], z3.IntVal(1)
        done = False
        # longest prefix whose size is s (extra size-one factors are absorbed lazily)
        for j in range(len(q) + 1):
            if j and cx.int_eq(vsize(q[:j]), s):
                acc, q = q[:j], q[j:]
                done = True
                break
        if not done and not q and cx.int_eq(s, 1):
            groups.append(())
            continue
        if not done:
            # split the first variable that straddles the boundary
            for j in range(len(q)):
                pre = vsize(q[:j])
                v = q[j]
                if v.fac.flt:
                    continue
                if v.fac.iv:
                    # one mode off the near end of an interval of modes
                    b, lo, hi, rv = v.fac.iv
                    low = rv == back
                    cut = z3.simplify(lo + 1) if low else z3.simplify(hi - 1)
                    if not cx.valid(lo < hi):
                        continue
                    near = T.known_single(Fac(iv=(b, lo, cut, rv) if low else (b, cut, hi, rv)))
                    if near is None or not cx.int_eq(z3.simplify(pre * near.size), s):
                        continue
                    two = T.split_ivar(v, cut)
                    compose(m, {v: pcs(two)})
                    m[v] = pcs(two)
                    two = two[::-1] if back else two
                    acc, q, done = q[:j] + [two[0]], two[1:] + q[j + 1:], True
                    break
                for (lead, tail) in _split_sizes(v.fac.size, pre, s):
                    v1, v2 = (Var(Fac(size=tail)), Var(Fac(size=lead))) if back else (Var(Fac(size=lead)), Var(Fac(size=tail)))
                    # forward: (lead, tail) row-major; backward: the trailing factor has size lead
                    compose(m, {v: pcs((v1, v2))})
                    m[v] = pcs((v1, v2))
                    first, second = (v2, v1) if back else (v1, v2)
                    acc = q[:j] + [first]
                    q = [second] + q[j + 1:]
                    done = True
                    break
                if done:
                    break
        if not done:
            return None
        groups.append(tuple(acc))
    return groups, q


def monom(z):
    """z as monomial: (coef, {name: (term,power)}) or None"""
    z = z3.simplify(z, som=True)
    if z3.is_int_value(z):
        return (z.as_long(), {})
    if z3.is_mul(z):
        c, d = 1, {}
        for ch in z.children():
            mm = monom(ch)
            if mm is None:
                return None
            c *= mm[0]
            for k, (t, p) in mm[1].items():
                d[k] = (t, d.get(k, (t, 0))[1] + p)
        return (c, d)
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(z.arg(1)):
        return (1, {z.arg(0).sexpr(): (z.arg(0), z.arg(1).as_long())})
    if z3.is_add(z) or z3.is_sub(z):
        return None
    return (1, {z.sexpr(): (z, 1)})


def mono_div(a, b):
    ma, mb = monom(a), monom(b)
    if ma is None or mb is None or mb[0] == 0 or ma[0] % mb[0]:
        return None
    d = dict(ma[1])
    for k, (t, p) in mb[1].items():
        if k not in d or d[k][1] < p:
            return None
        d[k] = (t, d[k][1] - p)
    r = z3.IntVal(ma[0] // mb[0])
    for k, (t, p) in d.items():
        for _ in range(p):
            r = r * t
    return z3.simplify(r)


def _split_sizes(n, pre, s):
    """lead with pre*lead == s and lead*tail == n"""
    lead = mono_div(s, pre)
    if lead is None:
        return
    tail = mono_div(n, lead)
    if tail is not None:
        yield lead, tail


def reshape_star(a, shape):
    """reshape to/from a symbolic number of axes: the target must group the existing index variables"""
    a = a.fresh()
    vs = a.allvars()
    s = seq_of(shape)
    parts = list(s.parts)
    unk = [i for i, p in enumerate(parts) if not isinstance(p, Gen) and isinstance(p[1], int) and p[1] == -1]
    if len(unk) > 1:
        raise ValueError("can only specify one unknown dimension")
    # target variable list (unknown axis filled with what remains)
    m = {}

    def cut_var(v, two):
        for w in m:         # v may be a part of a block that has been split before
            m[w] = tuple(y for x in m[w] for y in (pcs(two) if x[0] == "v" and x[1] is v else (x,)))
        m[v] = pcs(two)

    def take(q, part, back):
        if not isinstance(part, Gen):
            size = z3.simplify(Z(part[1]), som=True)
            if z3.is_int_value(size) and size.as_long() == 1:
                return (), q
            for j in range(1, len(q) + 1):
                cand = q[-j:] if back else q[:j]
                if cx.int_eq(vsize(cand), size):
                    return tuple(cand), (q[:-j] if back else q[j:])
            # split an interval: one mode off its end
            v = q[-1] if back else q[0]
            if v.fac.iv:
                b, lo, hi, rv = v.fac.iv
                first, second = (hi - 1, lo + 1) if (back != rv) else (lo + 1, hi - 1)
                cuts = [(first, lo < hi), (second, z3.And(lo < second, second < hi))]
                if z3.is_app(size) and size.num_args() == 2 and size.decl().name() == f"P<{b}>":
                    # the product of the modes from one end to another one
                    x, y = size.arg(0), size.arg(1)
                    third = x if (back != rv) else y
                    cuts.append((third, z3.And(lo < third, third < hi)))
                for cut, ok in cuts:
                    if not cx.valid(ok):
                        continue
                    two = T.split_ivar(v, z3.simplify(cut))
                    e = two[-1] if back else two[0]
                    if len(two) == 2 and cx.int_eq(e.fac.size, size):
                        cut_var(v, two)
                        q2 = (q[:-1] + two) if back else (two + q[1:])
                        return (e,), (q2[:-1] if back else q2[1:])
            raise Unsupported(f"reshape of a tensor of symbolic order to size {size}")
        if part.tag is None or part.tag[0] != "n":
            raise Unsupported("reshape to an untagged symbolic shape")
        b = part.tag[1]
        got, p = [], (part.hi if part.rev != back else part.lo)
        if back:
            p = part.lo if part.rev else part.hi
        else:
            p = part.hi if part.rev else part.lo
        # walk
        end = (part.hi if part.rev else part.lo) if back else (part.lo if part.rev else part.hi)
        q = list(q)
        n = 0
        while not cx.int_eq(p, end):
            n += 1
            if not q or n > 12:
                raise Unsupported("reshape: mode mismatch")
            v = q[-1] if back else q[0]
            if v.fac.iv:
                vb, lo, hi, rv = v.fac.iv
                far = (lo if (part.rev != back) else hi)
                near = (hi if (part.rev != back) else lo)
                if vb != b or rv != part.rev or not cx.int_eq(near, p):
                    raise Unsupported("reshape: mode mismatch")
                # does the interval stop before the end of the part?
                if cx.int_eq(far, end) or cx.valid((far >= end) if (part.rev != back) else (far <= end)):
                    got.append(v)
                    q = q[:-1] if back else q[1:]
                    p = far
                elif cx.valid((far < end) if (part.rev != back) else (far > end)):
                    two = T.split_ivar(v, end)
                    cut_var(v, two)
                    q = (q[:-1] + two) if back else (two + q[1:])
                else:
                    raise Unsupported("reshape: mode order")
            elif v.fac.mode and v.fac.mode[0] == b:
                k = v.fac.mode[1]
                if part.rev != back:
                    if not cx.int_eq(k + 1, p):
                        raise Unsupported("reshape: mode mismatch")
                    p = k
                else:
                    if not cx.int_eq(k, p):
                        raise Unsupported("reshape: mode mismatch")
                    p = z3.simplify(k + 1)
                got.append(v)
                q = q[:-1] if back else q[1:]
            elif cx.int_eq(v.fac.size, 1):
                if v.z is not None:
                    m[v] = (("z", z3.IntVal(1), z3.IntVal(0), None),)
                q = q[:-1] if back else q[1:]
            else:
                # a variable standing for the product of the remaining modes
                raise Unsupported("reshape: axis is not a mode")
        return Star(tuple(got[::-1]) if back else tuple(got)), q

    q = list(vs)
    head, tail = [], []
    stop = unk[0] if unk else len(parts)
    for p in parts[:stop]:
        g, q = take(q, p, False)
        head.append(g)
    if unk:
        for p in reversed(parts[stop + 1:]):
            g, q = take(q, p, True)
            tail.append(g)
        mid = [tuple(q)]
        q = []
    else:
        mid = []
    for v in q:
        if v.fac.iv and T.known_single(v.fac) is None:
            m[v] = ()
        elif cx.int_eq(v.fac.size, 1):
            m[v] = (("z", z3.IntVal(1), z3.IntVal(0), v.fac.mode),) if v.z is not None else ()
        else:
            raise Unsupported("reshape: leftover axis")
    axes = head + mid + tail[::-1]
    r = a.sub(m, axes) if m else a.sub({}, axes)
    r.store, r.view = a.store, "maybe"
    return r


def flip(a):
    """transpose of an array with axes of symbolic number: the order of all modes is reversed"""
    m, out = {}, []
    for x in reversed(a.axes):
        if isinstance(x, Star):
            vs = []
            for v in reversed(x.vs):
                if v.fac.iv:
                    b, lo, hi, r = v.fac.iv
                    w = Var(Fac(iv=(b, lo, hi, not r)))
                    m[v] = (w.piece(),)
                    v = w
                vs.append(v)
            x = Star(tuple(vs))
        out.append(x)
    e = T.subst(a.body, m)
    ts = []
    for t in e.t:       # the modes that are summed over are run through downwards, too
        bm = {v: Var(Fac(iv=v.fac.iv[:3] + (not v.fac.iv[3],))) for v in t.bv if v.fac.iv}
        if bm:
            t = T.subst_term(Term(t.c, t.sc, tuple(v for v in t.bv if v not in bm), t.at, t.g), {v: (w.piece(),) for v, w in bm.items()})
            t = Term(t.c, t.sc, t.bv + tuple(bm.values()), t.at, t.g)
        ts.append(t)
    e = Expr(ts)

    def rv(s):
        return tuple(reversed(s)) if len(s) > 1 and all(T.piece_bounds(p) for p in s) else s
    if any(isinstance(g, tuple) for t in e.t for g in t.g):
        raise Unsupported("transpose of a tensor of symbolic order")
    e = Expr([Term(t.c, t.sc, t.bv, tuple(Atom(x.fam, x.params, [rv(s) for s in x.slots]) for x in t.at), t.g) for t in e.t])
    return Arr(out, e)


def axis_units(a):
    """[axis or interval variable of a Star, number of axes]"""
    out = []
    for x in a.axes:
        if isinstance(x, Star):
            for v in x.vs:
                out.append((v, z3.simplify(v.fac.iv[2] - v.fac.iv[1]) if v.fac.iv else z3.IntVal(1)))
        else:
            out.append((x, z3.IntVal(1)))
    return out


def transpose_seq(a, perm):
    """transposition by a permutation given as a sequence: ranges of axes that go to other places as a whole, or everything reversed"""
    p = perm.parts
    r = a.fresh()
    units = axis_units(r)
    total = z3.simplify(sum((n for _, n in units), z3.IntVal(0)))
    if not cx.decide(perm.zlen() == total):
        raise ValueError("axes don't match array")
    if len(p) == 1 and isinstance(p[0], Gen) and p[0].rev and cx.int_eq(p[0].lo, 0) and cx.int_eq(p[0].hi, total):
        k = z3.Int(cx.fresh("k"))
        if cx.int_eq(Z(p[0].f(k)), k):
            r = flip(r)
            r.store, r.view, r.meta = a.store, "view", {}
            return r
    m, axes, taken = {}, [], set()

    def pick(lo, hi):
        """the units at the positions lo..hi-1"""
        nonlocal units
        while True:
            off, got, again = z3.IntVal(0), [], False
            for i, (u, n) in enumerate(units):
                end = z3.simplify(off + n)
                if cx.valid(end <= lo):
                    pass
                elif cx.valid(off >= hi):
                    break
                elif cx.valid(z3.And(off >= lo, end <= hi)):
                    got.append((i, u))
                else:
                    if isinstance(u, tuple) or not u.fac.iv:
                        raise Unsupported("transpose of a tensor of symbolic order")
                    b, l, h, rv = u.fac.iv
                    c = lo if cx.valid(z3.And(lo > off, lo < end)) else hi if cx.valid(z3.And(hi > off, hi < end)) else None
                    if c is None:
                        raise Unsupported("transpose of a tensor of symbolic order")
                    two = T.split_ivar(u, z3.simplify(h - (c - off) if rv else l + (c - off)))
                    for w in m:         # u may be a part of a block that has been split before
                        m[w] = tuple(y for x in m[w] for y in (pcs(two) if x[0] == "v" and x[1] is u else (x,)))
                    m[u] = pcs(two)
                    units = units[:i] + [(v, z3.simplify(v.fac.iv[2] - v.fac.iv[1]) if v.fac.iv else z3.IntVal(1)) for v in two] + units[i + 1:]
                    again = True
                    break
                off = end
            if not again:
                return got
    spans, turn = [], []
    for q in p:
        if isinstance(q, Gen):
            k = z3.Int(cx.fresh("k"))
            c = z3.simplify(Z(q.f(k)) - k)
            if any(x.eq(k) for x in _zconsts(c)) or q.rev and turn:
                raise Unsupported("transpose of a tensor of symbolic order")
            spans.append((z3.simplify(q.lo + c), z3.simplify(q.hi + c)))
            if q.rev:
                turn.append(len(spans) - 1)
        else:
            k = Z(q[1])
            if not cx.decide(k >= 0):
                k = z3.simplify(k + total)
            spans.append((z3.simplify(k), z3.simplify(k + 1)))
    for lo, hi in spans:      # splits first: positions of the units do not change afterwards
        pick(lo, hi)
    got = [pick(lo, hi) for lo, hi in spans]
    seen = [i for g in got for i, _ in g]
    if sorted(seen) != list(range(len(units))):
        raise Unsupported("transpose of a tensor of symbolic order")
    n0 = n1 = 0
    for i, g in enumerate(got):
        lo = len(axes)
        for _, u in g:
            if isinstance(u, tuple):
                axes.append(u)
            elif axes and isinstance(axes[-1], Star) and not (turn and len(axes) == lo):
                axes[-1] = Star(axes[-1].vs + (u,))
            else:
                axes.append(Star((u,)))
        if i in turn:
            n0, n1 = lo, len(axes)
    out = r.sub(m, axes, "view")
    if turn:
        rest = out.axes[:n0] + out.axes[n1:]
        if any(isinstance(x, Star) or any(v.fac.iv for v in x) for x in rest):
            raise Unsupported("transpose of a tensor of symbolic order")
        f = flip(Arr(out.axes[n0:n1], out.body))
        out = Arr(list(out.axes[:n0]) + list(f.axes) + list(out.axes[n1:]), f.body)
    out.store, out.view, out.meta = a.store, "view", {}
    return out


def _zconsts(z):
    out, st = [], [z]
    while st:
        x = st.pop()
        if z3.is_const(x):
            out.append(x)
        st.extend(x.children())
    return out


# ------------------------------------------------------------------------------- einsum and friends
def parse_einsum(sub, ops):
    sub = sub.replace(" ", "")
    if "->" in sub:
        ins, out = sub.split("->")
    else:
        ins, out = sub, None
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise ValueError("einsum: wrong number of operands")
    if out is None:
        cnt = {}
        for s in ins:
            for c in s.replace("...", ""):
                cnt[c] = cnt.get(c, 0) + 1
        out = ("..." if any("..." in s for s in ins) else "") + "".join(sorted(c for c in cnt if cnt[c] == 1))
    return ins, out


def einsum(sub, *ops, **kw):
    for k in kw:
        if k not in ("optimize",):
            raise Unsupported(f"einsum {k}")
    if not isinstance(sub, str):
        raise Unsupported("einsum sublist format")
    ops = [as_arr(o).as_float().fresh() for o in ops]
    ins, out = parse_einsum(sub, ops)
    lab = {}      # label -> vars tuple | Star
    maps = [dict() for _ in ops]
    ell = []

    for oi, (s, a) in enumerate(zip(ins, ops)):
        axes = list(a.axes)
        if "..." in s:
            pre, post = s.split("...")
            n = len(axes) - len(pre) - len(post)
            if n < 0:
                raise ValueError("einsum: too many subscripts")
            mid = axes[len(pre):len(pre) + n]
            labels = [(c, ax) for c, ax in zip(pre, axes)]
            labels += [(f".{n - 1 - i}", ax) for i, ax in enumerate(mid)]
            labels += [(c, ax) for c, ax in zip(post, axes[len(axes) - len(post):] if post else [])]
            names = [f".{n - 1 - i}" for i in range(n)]
            if len(names) > len(ell):
                ell = names
        else:
            if len(s) != len(axes):
                raise ValueError(f"einsum: operand has {len(axes)} axes but subscripts '{s}'")
            labels = list(zip(s, axes))
        for c, ax in labels:
            star = isinstance(ax, Star)
            vs = ax.vs if star else ax
            vs = tuple(resolve(v, maps[oi]) for v in vs)
            vs = tuple(x for t in vs for x in t)
            if c not in lab:
                lab[c] = Star(vs) if star else vs
                continue
            cur = lab[c]
            cv = cur.vs if isinstance(cur, Star) else cur
            if cv == vs:
                continue
            if not cv and not star:
                lab[c] = vs
                continue
            if not vs and not star:
                continue
            com, m1, m2 = unify_axes(cv, vs, f"einsum label {c}")
            # apply m1 to everything already bound
            for mm in maps:
                compose(mm, m1)
                compose(mm, m2)
            for v in m1:
                for mm in maps:
                    mm.setdefault(v, m1[v])
            for v in m2:
                for mm in maps:
                    mm.setdefault(v, m2[v])
            for c2 in list(lab):
                lab[c2] = map_ax(lab[c2], m1, m2)
            lab[c] = Star(com) if isinstance(cur, Star) else tuple(com)
    e = T.const(1)
    for a, mm in zip(ops, maps):
        own = {v: mm[v] for v in a.allvars() if v in mm}
        e = T.mul(e, T.subst(a.body, own))
    if "..." in out:
        pre, post = out.split("...")
        olab = list(pre) + ell + list(post)
    else:
        olab = list(out)
        if ell:
            raise ValueError("einsum: ellipsis must appear in the output")
    for c in olab:
        if c not in lab:
            raise ValueError(f"einsum: unknown output label {c}")
    summed = [c for c in lab if c not in olab]
    sv = []
    for c in summed:
        sv.extend(lab[c].vs if isinstance(lab[c], Star) else lab[c])
    e = T.sum_over(e, sv)
    # repeated output labels are not allowed by numpy
    return Arr([lab[c] for c in olab], tidy(e)).fresh()


def resolve(v, mm):
    """variables a binder currently stands for"""
    if v not in mm:
        return (v,)
    out = ()
    for p in mm[v]:
        w = p[1] if p[0] == "v" else T.bare(p)
        if w is None:
            return ()
        out += resolve(w, mm) if w is not v else (w,)
    return out


def compose(mm, m):
    for v in list(mm):
        ps = []
        for p in mm[v]:
            w = p[1] if p[0] == "v" else T.bare(p)
            if w is not None and w in m:
                ps.extend(m[w])
            else:
                ps.append(p)
        mm[v] = tuple(ps)


def map_ax(ax, *ms):
    vs = ax.vs if isinstance(ax, Star) else ax
    out = []
    for v in vs:
        for m in ms:
            if v in m:
                for p in m[v]:
                    w = p[1] if p[0] == "v" else T.bare(p)
                    if w is not None:
                        out.append(w)
                break
        else:
            out.append(v)
    return Star(out) if isinstance(ax, Star) else tuple(out)


def tidy(e):
    """cheap normalisation to keep terms small"""
    if len(e.t) > 400:
        raise Unsupported("expression too large")
    if any(t.g for t in e.t) or cx.rules:
        return T.normalize(e)
    return e


LET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def matmul(a, b):
    a, b = as_arr(a), as_arr(b)
    na, nb = len(a.axes), len(b.axes)
    if na == 0 or nb == 0:
        raise ValueError("matmul: scalar operand")
    if na == 1 and nb == 1:
        return scalar_of(einsum("a,a->", a, b))
    if na == 2 and nb == 2:
        return einsum("ab,bc->ac", a, b)
    if na == 2 and nb == 1:
        return einsum("ab,b->a", a, b)
    if na == 1 and nb == 2:
        return einsum("a,ab->b", a, b)
    if nb == 1:
        return einsum("...a,a->...", a, b)
    if nb == 2:
        return einsum("...a,ab->...b", a, b)
    raise Unsupported("batched matmul")


def npdot(a, b):
    if _scalarlike(a) or _scalarlike(b):
        return a * b
    a, b = as_arr(a), as_arr(b)
    if len(b.axes) <= 2:
        return matmul(a, b)
    raise Unsupported("dot of higher-order arrays")


def tensordot(a, b, axes=2):
    a, b = as_arr(a), as_arr(b)
    if a.has_star() or b.has_star():
        raise Unsupported("tensordot with symbolic order")
    na, nb = len(a.axes), len(b.axes)
    if isinstance(axes, int):
        xa, xb = list(range(na - axes, na)), list(range(axes))
    else:
        xa, xb = axes
        xa = [xa] if isint(xa) else list(xa)
        xb = [xb] if isint(xb) else list(xb)
    xa = [x % na for x in xa]
    xb = [x % nb for x in xb]
    la, lb = list(LET[:na]), list(LET[na:na + nb])
    for x, y in zip(xa, xb):
        lb[y] = la[x]
    out = [la[i] for i in range(na) if i not in xa] + [lb[i] for i in range(nb) if i not in xb]
    r = einsum(f"{''.join(la)},{''.join(lb)}->{''.join(out)}", a, b)
    return r if out else scalar_of(r)


def npsum(a, axis=None, keepdims=False):
    if isinstance(a, OpaqueMask):
        return a.count()
    if isinstance(a, (list, tuple, Seq)):
        a = as_arr(a)
    a = as_arr(a)
    if a.kind == "i":
        if axis is None and not a.allvars():
            return scalar_of(a)
        if axis is None and all(z3.is_int_value(v.fac.size) for v in a.allvars()):
            tot = 0
            for x in a.ravel():
                tot = tot + scalar_of(x)
            return tot
        if isint(axis) and not keepdims and not a.has_star():
            b = a.transpose(tuple([axis % len(a.axes)] + [i for i in range(len(a.axes)) if i != axis % len(a.axes)]))
            k = z3.simplify(vsize(b.axes[0]))
            if z3.is_int_value(k) and k.as_long() > 0:
                tot = b[0]
                for i in range(1, k.as_long()):
                    tot = tot + b[i]
                return tot
        raise Unsupported("sum of an integer array")
    a = a.as_float().fresh()
    if axis is None:
        r = SymScalar(tidy(T.sum_over(a.body, a.allvars())))
        if keepdims:
            return Arr([() for _ in a.axes], r.e)
        return r
    if isint(axis):
        axis = (axis,)
    n = len(a.axes)
    if a.has_star() and not all(x < 0 for x in axis):
        raise Unsupported("sum over a mode of a tensor of symbolic order")
    ax = {x % n for x in axis}
    if any(isinstance(a.axes[x], Star) for x in ax):
        raise Unsupported("sum over a block of modes")
    vs = [v for x in ax for v in a.axes[x]]
    e = tidy(T.sum_over(a.body, vs))
    return Arr([a.axes[i] if i not in ax else () for i in range(n) if keepdims or i not in ax], e).fresh()


def vsize_of_shape(s):
    r = z3.IntVal(1)
    for x in s:
        r = r * Z(x)
    return z3.simplify(r)


def np_all(a):
    if isinstance(a, (bool, SymBool)):
        return a
    if isinstance(a, OpaqueMask):
        return a.all()
    if isinstance(a, (OpaqueBool, OpaqueCond)):
        return a
    if isinstance(a, Arr) and a.kind == "b":
        return _quant(a, True)
    raise Unsupported("all")


def np_any(a):
    if isinstance(a, (bool, SymBool)):
        return a
    if isinstance(a, OpaqueMask):
        return a.any()
    if isinstance(a, Arr) and a.kind == "b":
        return _quant(a, False)
    raise Unsupported("any")


def _quant(a, univ):
    vs = [v for v in a.allvars()]
    if any(v.fac.iv or v.fac.flt for v in vs):
        raise Unsupported("quantified condition over modes")
    if all(z3.is_int_value(v.fac.size) for v in vs):
        out = []
        for combo in itertools.product(*[range(v.fac.size.as_long()) for v in vs]):
            prs = [(v.z, z3.IntVal(c)) for v, c in zip(vs, combo)]
            out.append(z3.simplify(z3.substitute(a.zb, *prs)) if prs else a.zb)
        return SymBool(z3.simplify(z3.And(*out) if univ else z3.Or(*out)))
    rng = z3.And(*[T.in_range(v) for v in vs])
    zs = [v.z for v in vs]
    return SymBool(z3.ForAll(zs, z3.Implies(rng, a.zb)) if univ else z3.Exists(zs, z3.And(rng, a.zb)))


# ------------------------------------------------------------------------------- constructors
def shape_axes(shape):
    if isint(shape):
        shape = (shape,)
    axes = []
    for p in seq_of(shape).parts:
        if isinstance(p, Gen):
            if p.tag is None or p.tag[0] != "n":
                raise Unsupported("array of untagged symbolic shape")
            f = T.known_single(Fac(iv=(p.tag[1], p.lo, p.hi, p.rev)))
            axes.append(Star((Var(f),) if f is not None else ()))
        else:
            s = scalar_of(p[1])
            if isinstance(s, int) and s < 0:
                raise ValueError("negative dimensions are not allowed")
            axes.append(new_axis(s))
    return axes


def zeros(shape, *a, **k):
    return Arr(shape_axes(shape), Expr())


def ones(shape, *a, **k):
    return Arr(shape_axes(shape), T.const(1))


def eye(n, m=None, *a, **k):
    m = n if m is None else m
    x, y = new_axis(n), new_axis(m)
    zx = x[0].z if x else z3.IntVal(0)
    zy = y[0].z if y else z3.IntVal(0)
    return Arr([x, y], Expr([Term(1, g=(zx == zy,))]))


def diag(a):
    a = as_arr(a).as_float().fresh()
    if len(a.axes) == 1:
        x = a.axes[0]
        if not x:
            return Arr([(), ()], a.body)
        if len(x) != 1:
            raise Unsupported("diag of a composite axis")
        y = Var(x[0].fac)
        return Arr([x, (y,)], T.guard(a.body, [x[0].z == y.z]))
    if len(a.axes) == 2:
        c, m1, m2 = unify_axes(a.axes[0], a.axes[1])
        return Arr([tuple(c)], T.subst(T.subst(a.body, m1), m2))
    raise ValueError("Input must be 1- or 2-d.")


def concatenate(arrs, axis=0, **k):
    arrs = [as_arr(a).fresh() for a in arrs]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    n = len(arrs[0].axes)
    if any(len(a.axes) != n for a in arrs):
        raise ValueError("all the input array dimensions must match")
    if all(a.kind == "i" for a in arrs):
        return concat_int(arrs, axis)
    axis = axis % n
    arrs = [a.as_float() for a in arrs]
    cur = arrs[0]
    for b in arrs[1:]:
        cur = cat2(cur.fresh(), b.fresh(), axis)
    return cur


def cat2(a, b, axis):
    ma, mb, axes = {}, {}, []
    for i, (x, y) in enumerate(zip(a.axes, b.axes)):
        if i == axis:
            axes.append(None)
            continue
        if x == () and y == ():
            axes.append(())
            continue
        if isinstance(x, Star) or isinstance(y, Star):
            if not (isinstance(x, Star) and isinstance(y, Star)):
                raise Unsupported("concatenate symbolic order")
            c, m1, m2 = unify_axes(x.vs, y.vs, "concatenate")
            axes.append(Star(tuple(c)))
            ma.update(m1)
            mb.update(m2)
            continue
        c, m1, m2 = unify_axes(x, y, "concatenate")
        axes.append(tuple(c))
        ma.update(m1)
        mb.update(m2)
    sx, sy = vsize(a.axes[axis]), vsize(b.axes[axis])
    w = Var(Fac(size=z3.simplify(sx + sy)))
    axes[axis] = (w,)

    def place(e, vs, m, off, lo, hi):
        z = z3.simplify(w.z - off)
        if vs:
            m.update(index_axis(vs, (("z", vsize(vs), z, None),)))
        g = []
        if lo is not None:
            g.append(w.z >= lo)
        if hi is not None:
            g.append(w.z < hi)
        return T.guard(T.subst(e, m), g)
    e1 = place(a.body, a.axes[axis], ma, z3.IntVal(0), None, sx)
    e2 = place(b.body, b.axes[axis], mb, sx, sx, None)
    return Arr(axes, T.add(e1, e2))


def concat_int(arrs, axis):
    if len(arrs[0].axes) != 1:
        raise Unsupported("concatenate integer matrices")
    tot = z3.IntVal(0)
    w = None
    sizes = [vsize(a.axes[0]) for a in arrs]
    for s in sizes:
        tot = tot + s
    w = Var(Fac(size=z3.simplify(tot)))
    val, off = None, z3.simplify(tot)
    for a, s in reversed(list(zip(arrs, sizes))):
        off = z3.simplify(off - s)
        m = index_axis(a.axes[0], (("z", s, z3.simplify(w.z - off), None),)) if a.axes[0] else {}
        ip = T.flat_index(a.sub(m, [(w,)]).ip)
        val = ip if val is None else z3.If(w.z >= off + s, val, ip)
    return Arr([(w,)], kind="i", ip=(("z", None, z3.simplify(val), None),))


def stack(arrs, axis=0, **k):
    if isinstance(arrs, Seq) and not arrs.concrete():
        return stack_seq(arrs)
    arrs = [as_arr(a) for a in arrs]
    if not arrs:
        raise ValueError("need at least one array to stack")
    if axis != 0:
        raise Unsupported("stack axis")
    if all(a.kind == "i" for a in arrs):
        return stack_ints(arrs)
    out = []
    for a in arrs:
        a = a.as_float().fresh()
        out.append(Arr([()] + a.axes, a.body))
    return concatenate(out, 0) if len(out) > 1 else out[0]


def stack_ints(arrs):
    n = len(arrs)
    base = arrs[0].fresh()
    w = Var(Fac(size=z3.IntVal(n)))
    zs = [T.flat_index(base.ip)]
    common = base.axes
    for a in arrs[1:]:
        a = a.fresh()
        if len(a.axes) != len(base.axes):
            raise ValueError("all input arrays must have the same shape")
        m = {}
        for x, y in zip(common, a.axes):
            if len(x) != len(y):
                raise Unsupported("stack")
            for u, v in zip(x, y):
                if not (_match1(u, v)):
                    size_mismatch(u.fac.size, v.fac.size, "stack")
                m[v] = (u.piece(),)
        zs.append(T.flat_index(a.sub(m, common).ip))
    val = zs[-1]
    for i in range(n - 2, -1, -1):
        val = z3.If(w.z == i, zs[i], val)
    axes = [(w,) if n > 1 else ()] + list(common)
    if n == 1:
        val = zs[0]
    r = Arr(axes, kind="i", ip=(("z", None, val, None),))
    r.meta["rows"] = list(arrs)
    return r


def stack_seq(s):
    """np.stack of a symbolic number of index vectors"""
    return rows_of(s)


def stack_list(x):
    if isinstance(x, Seq) and not x.concrete():
        raise Unsupported("array of a symbolic sequence")
    x = list(x)
    if not x:
        return Arr([(Var(Fac(size=z3.IntVal(0))),)], Expr())
    if all(isint(v) for v in x):
        return stack_ints([as_arr(v) for v in x])
    if all(isinstance(v, (list, tuple, Arr)) for v in x):
        return stack([as_arr(v) for v in x])
    return stack([as_arr(v).as_float() for v in x])


def arange(*a, **k):
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported("arange step")
    n = z3.simplify(Z(hi) - Z(lo))
    ax = new_axis(mk(n))
    z = ax[0].z if ax else z3.IntVal(0)
    return Arr([ax], kind="i", ip=(("z", None, z3.simplify(z + Z(lo)), None),))


# ------------------------------------------------------------------------------- indexing
def slice_bounds(s, n):
    """(lo, length, step) of a slice over an axis of size n (z3)"""
    st = s.step
    if st is not None:
        st = st.__index__()
    if st not in (None, 1, -1):
        raise Unsupported("slice step")

    def clampz(x, lo, hi):
        if cx.valid(x < lo):
            return lo
        if cx.valid(z3.And(x >= lo, x <= hi)):
            return x
        if cx.valid(x > hi):
            return hi
        if cx.valid(x >= lo):
            return z3.If(x > hi, hi, x) if not cx.decide(x <= hi) else x
        if cx.decide(x < lo):
            return lo
        return x if cx.decide(x <= hi) else hi

    def nrm(x):
        x = Z(scalar_of(x))
        if z3.is_int_value(x):
            return z3.simplify(n + x) if x.as_long() < 0 else x
        if cx.valid(x >= 0):
            return x
        return z3.simplify(n + x) if cx.decide(x < 0) else x
    zero = z3.IntVal(0)
    if st == -1:
        hi = n if s.start is None else clampz(z3.simplify(nrm(s.start) + 1), zero, n)
        lo = zero if s.stop is None else clampz(z3.simplify(nrm(s.stop) + 1), zero, n)
    else:
        lo = zero if s.start is None else clampz(nrm(s.start), zero, n)
        hi = n if s.stop is None else clampz(nrm(s.stop), zero, n)
    if not cx.valid(hi >= lo):
        if cx.decide(hi < lo):
            hi = lo
    return z3.simplify(lo), z3.simplify(hi - lo), -1 if st == -1 else 1


def expand_index(a, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = list(idx)
    nax = len(a.axes)
    nreal = 0
    for x in idx:
        if x is None or x is Ellipsis:
            continue
        nreal += len(x.axes) if isinstance(x, Arr) and x.kind == "b" else 1
    if any(x is Ellipsis for x in idx):
        i = [j for j, x in enumerate(idx) if x is Ellipsis][0]
        idx[i:i + 1] = [slice(None)] * (nax - nreal)
    elif nreal < nax:
        idx += [slice(None)] * (nax - nreal)
    elif nreal > nax:
        raise IndexError("too many indices for array")
    return idx


def getitem(a, idx):
    if isinstance(idx, OpaqueMask):
        raise Unsupported("indexing with a real comparison")
    if isinstance(idx, tuple) and len(idx) == 1 and isinstance(idx[0], WhereIdx):
        idx = idx[0].mask
    if isinstance(idx, WhereIdx):
        idx = idx.mask
    if isinstance(idx, Seq):
        return gather_seq(a, idx)
    if a.kind == "i" and "rows" in a.meta and isinstance(idx, int):
        r = a.meta["rows"]
        if -len(r) <= idx < len(r):
            return r[idx]
    if isinstance(idx, tuple) and len(idx) == 2 and isinstance(idx[1], Arr) and "prefix" in idx[1].meta:
        if len(a.axes) != 2 or idx[0] != slice(None):
            raise Unsupported("indexing with flat indices of a symbolic number of rows")
        J, k, back = idx[1].meta["prefix"]
        return J.pick(a, k, back)
    idx = expand_index(a, idx)
    a = a.fresh()
    m, axes = {}, []
    ai = 0
    simple = True
    adv = [x for x in idx if isinstance(x, Arr) and x.kind == "i" and x.allvars()]
    advaxes = None
    if len(adv) > 1:
        # broadcast together
        ref = adv[0]
        com = adv[0].fresh()
        al = []
        for x in adv:
            x = x.fresh()
            c, m1, m2 = unify_arr(com, x) if x is not com else (None, {}, {})
            mm = {}
            for xa, ca in zip(x.axes, com.axes):
                for u, v in zip(xa, ca):
                    mm[u] = (v.piece(),)
            al.append(x.sub(mm, com.axes))
        advq = list(al)
        advaxes = com.axes
    placed = False
    for x in idx:
        if x is None:
            axes.append(())
            continue
        ax = a.axes[ai]
        if isinstance(ax, Star):
            if isinstance(x, slice) and x == slice(None):
                axes.append(ax)
                ai += 1
                continue
            raise Unsupported("indexing a block of modes")
        ai += 1
        n = vsize(ax)
        if isinstance(x, slice):
            if x.start is None and x.stop is None and x.step is None:
                axes.append(ax)
                continue
            lo, ln, st = slice_bounds(x, n)
            if lo.eq(z3.IntVal(0)) and cx.int_eq(ln, n) and st == 1:
                axes.append(ax)
                continue
            if len(ax) == 1 and not ax[0].fac.iv and not ax[0].fac.flt or not ax:
                w = new_axis(mk(ln))
                z = w[0].z if w else z3.IntVal(0)
                if not ax:
                    axes.append(w)
                    continue
                v = ax[0]
                zz = z3.simplify(z + lo) if st == 1 else z3.simplify(lo + ln - 1 - z)
                m[v] = (("z", v.fac.size, zz, v.fac.mode),)
                axes.append(w)
                continue
            if any(v.fac.flt or v.fac.iv for v in ax):
                raise Unsupported("slice of a filtered or multi-mode axis")
            w = new_axis(mk(ln))
            z = w[0].z if w else z3.IntVal(0)
            zz = z3.simplify(z + lo) if st == 1 else z3.simplify(lo + ln - 1 - z)
            m.update(decompose(zz, ax))
            axes.append(w)
            continue
        if isinstance(x, Arr) and x.kind == "b":
            if len(x.axes) != 1:
                raise Unsupported("multi-dimensional mask")
            if not ax:
                raise Unsupported("mask on a size-one axis")
            if len(ax) != 1 or ax[0].fac.iv or ax[0].fac.flt:
                raise Unsupported("mask on a composite axis")
            v = ax[0]
            mz = x.axes[0][0].z
            if not cx.int_eq(x.axes[0][0].fac.size, v.fac.size):
                size_mismatch(x.axes[0][0].fac.size, v.fac.size, "boolean index")
            pred = (lambda i, zb=x.zb, mz=mz: z3.substitute(zb, (mz, i)))
            cnt = z3.Int(cx.fresh("cnt"))
            w = None
            # equal masks share their size
            z = z3.Int(cx.fresh("q"))
            for (n0, p0, c0) in cx.opaque.setdefault("masks", []):
                if cx.int_eq(n0, v.fac.size) and cx.valid(p0(z) == pred(z)):
                    cnt = c0
                    break
            else:
                cx.assume(z3.And(cnt >= 0, cnt <= v.fac.size))
                cx.opaque["masks"].append((v.fac.size, pred, cnt))
            w = Var(Fac(size=cnt, flt=(v.fac.size, pred)))
            m[v] = (("z", v.fac.size, w.z, v.fac.mode),)
            axes.append((w,))
            simple = False
            continue
        if isinstance(x, Arr) and x.kind == "i" and x.allvars():
            simple = False
            if len(adv) > 1:
                y = advq.pop(0)
                if not placed:
                    axes.extend(y.axes)
                    placed = True
            else:
                y = x.fresh()
                axes.extend(y.axes)
            index_bounds(T.flat_index(y.ip), n, y.allvars())
            if ax:
                m.update(index_axis(ax, y.ip))
            continue
        if isinstance(x, (list, Seq)):
            raise Unsupported("list index")
        z = Z(scalar_of(x))
        if z3.is_int_value(z) and z.as_long() < 0:
            z = z3.simplify(n + z)
        if not cx.decide(z3.And(z >= 0, z < n)):
            if z3.is_int_value(z3.simplify(Z(scalar_of(x)))) or not cx.decide(z3.And(z < 0, z >= -n)):
                raise IndexError("index out of bounds")
            z = z3.simplify(z + n)
        if ax:
            m.update(decompose(z3.simplify(z), ax))
    r = a.sub(m, axes, view="view" if simple else None)
    if not simple:
        r.store, r.view = Store(), None
    if not r.axes:
        return scalar_of(r)
    return r


def index_bounds(z, n, vs):
    """obligation: an index array stays in range"""
    c = z3.And(z >= 0, z < n)
    if not T.valid_in(vs, [], c):
        for v in vs:
            if v.z is not None:
                cx.solver.add(T.in_range(v))
        if cx.solver.check(z3.Not(c), z >= 0 if False else z3.BoolVal(True)) == z3.sat:
            cx.notes.append("index range not provable")
            raise Unsupported("index array not provably in range")


def coordinates(seq):
    """the registered coordinates whose rows these are: (them, reversed) or None"""
    for c in cx.opaque.get("coords", []):
        r = c.listed(seq)
        if r is not None:
            return c, r
    return None


def gather_seq(a, seq):
    raise Unsupported("indexing with a symbolic number of index arrays")


class WhereIdx:
    """np.where(mask)[0]-style index: behaves like the mask in indexing"""

    def __init__(self, mask):
        self.mask = mask


def where(c, *rest):
    if rest:
        if isinstance(c, Arr) and c.kind == "b":
            x, y = rest
            ind = Arr(c.axes, Expr([Term(1, g=(c.zb,))])).fresh()
            indn = Arr(c.axes, Expr([Term(1, g=(z3.Not(c.zb),))])).fresh()
            return ind * x + indn * y
        raise Unsupported("where of a real comparison")
    if isinstance(c, Arr) and c.kind == "b" and len(c.axes) == 1:
        return (WhereIdx(c),)
    raise Unsupported("where")


def setitem(a, idx, val):
    if isinstance(idx, tuple) and len(idx) == 1 and isinstance(idx[0], WhereIdx):
        idx = idx[0].mask
    if isinstance(idx, WhereIdx):
        idx = idx.mask
    write_check(a)
    if isinstance(idx, tuple) and idx and all(isinstance(x, Arr) and x.kind == "i" and x.allvars() for x in idx) \
            and len(idx) == len(a.axes):
        return scatter(a, idx, val)
    if isinstance(idx, Seq):
        return scatter_seq(a, idx, val)
    idx = expand_index(a, idx)
    b = a.fresh()
    if b.kind != "f":
        raise Unsupported("assignment into an integer array")
    guards, tgt_axes = [], []
    # value axes correspond to sliced axes
    vaxes = []
    m_val_builder = []
    ai = 0
    maskvar = None
    for x in idx:
        ax = b.axes[ai]
        ai += 1
        if isinstance(ax, Star):
            if isinstance(x, slice) and x == slice(None):
                vaxes.append((ax, None, None))
                continue
            raise Unsupported("assignment into a block of modes")
        n = vsize(ax)
        if isinstance(x, slice):
            lo, ln, st = slice_bounds(x, n)
            if st != 1:
                raise Unsupported("reversed slice assignment")
            whole = lo.eq(z3.IntVal(0)) and cx.int_eq(ln, n)
            if not whole:
                z = T.flat_index(pcs(ax)) if ax else z3.IntVal(0)
                guards.append(z3.And(z >= lo, z < lo + ln))
            vaxes.append((ax, lo, ln))
            continue
        if isinstance(x, Arr) and x.kind == "b":
            if len(ax) != 1 or len(x.axes) != 1:
                raise Unsupported("mask assignment")
            v = ax[0]
            mz = x.axes[0][0].z
            pred = (lambda i, zb=x.zb, mz=mz: z3.substitute(zb, (mz, i)))
            guards.append(pred(v.z))
            vaxes.append((ax, "mask", pred))
            continue
        if isint(x) or isinstance(x, Arr):
            z = Z(scalar_of(x))
            if z3.is_int_value(z) and z.as_long() < 0:
                z = z3.simplify(n + z)
            if not cx.decide(z3.And(z >= 0, z < n)):
                raise IndexError("index out of bounds")
            zz = T.flat_index(pcs(ax)) if ax else z3.IntVal(0)
            guards.append(zz == z)
            continue
        raise Unsupported("assignment index")
    v = as_arr(val).as_float().fresh() if not (isinstance(val, Arr) and val.kind == "f") else val.fresh()
    va = list(v.axes)
    m = {}
    off = len(vaxes) - len(va)
    if off < 0:
        if all(x == () for x in va[:-off]):
            va = va[-off:]
            off = 0
        else:
            raise ValueError("could not broadcast input array into shape")
    for i, (ax, lo, ln) in enumerate(vaxes):
        if i < off:
            continue
        y = va[i - off]
        if isinstance(ax, Star) or isinstance(y, Star):
            c, m1, m2 = unify(ax.vs if isinstance(ax, Star) else ax, y.vs if isinstance(y, Star) else y)
            if any(len(p) != 1 for p in m1.values()):
                raise Unsupported("assign")
            inv = {}
            for u, p in m1.items():
                w = p[0][1] if p[0][0] == "v" else T.bare(p[0])
                inv[w] = (u.piece(),)
            for u, p in m2.items():
                m[u] = tuple(q for pp in p for q in inv[pp[1] if pp[0] == "v" else T.bare(pp)])
            continue
        if y == ():
            if isinstance(lo, str) or (ln is not None and not cx.int_eq(ln, 1)):
                pass  # broadcasting a size-one axis
            continue
        if isinstance(lo, str):
            if len(y) == 1 and y[0].fac.flt:
                z = z3.Int(cx.fresh("q"))
                n0, p0 = y[0].fac.flt
                if cx.int_eq(n0, ax[0].fac.size) and cx.valid(z3.Implies(z3.And(z >= 0, z < n0), p0(z) == ln(z))):
                    m[y[0]] = (ax[0].piece(),)
                    continue
            raise Unsupported("assignment of differently masked values")
        if not cx.int_eq(vsize(y), ln):
            size_mismatch(vsize(y), ln, "could not broadcast input array")
        if lo.eq(z3.IntVal(0)) and len(ax) == len(y) and all(_match1(p, q) for p, q in zip(ax, y)):
            for p, q in zip(ax, y):
                m[q] = (p.piece(),)
        elif ax:
            zz = z3.simplify(T.flat_index(pcs(ax)) - lo)
            m.update(index_axis(y, (("z", ln, zz, None),)))
        else:
            for q in y:
                m[q] = (("z", q.fac.size, z3.IntVal(0), None),)
    new = T.subst(v.body, m)
    g = z3.simplify(z3.And(*guards)) if guards else z3.BoolVal(True)
    if z3.is_true(g):
        body = new
    else:
        old = T.guard(b.body, [z3.Not(g)])
        body = T.add(old, T.guard(new, [g]))
    a.axes, a.body = b.axes, tidy(body)


def scatter(a, idx, val):
    """a[i1(k),...,id(k)] = v(k) for distinct index tuples"""
    b = a.fresh()
    ks = idx[0].fresh()
    v = as_arr(val).fresh()
    gs = []
    mv = {}
    for x, y in zip(v.axes, ks.axes):
        c, m1, m2 = unify_axes(x, y)
        for u, w in zip(x, y):
            mv[u] = (w.piece(),)
    body = T.subst(v.as_float().body, mv)
    kv = ks.allvars()
    for x, ax in zip(idx, b.axes):
        x = x.fresh()
        mm = {}
        for xa, ka in zip(x.axes, ks.axes):
            for u, w in zip(xa, ka):
                mm[u] = (w.piece(),)
        zi = T.flat_index(x.sub(mm, ks.axes).ip)
        n = vsize(ax)
        index_bounds(zi, n, kv)
        zz = T.flat_index(pcs(ax)) if ax else z3.IntVal(0)
        gs.append(zz == zi)
    if b.body.t:
        raise Unsupported("scatter into a nonzero array")
    cx.notes.append("distinct coordinates assumed (precondition of SparseTensor)")
    a.axes = b.axes
    a.body = T.sum_over(T.guard(body, gs), kv)


def scatter_seq(a, idx, val):
    """a[rows] = values at distinct coordinates of symbolic order: entry I is the sum over the coordinates q of value(q) [I = column q]"""
    b = a.fresh()
    if b.body.t or len(b.axes) != 1 or not isinstance(b.axes[0], Star):
        raise Unsupported("scatter of symbolic order")
    c = coordinates(idx)
    if c is None:
        raise Unsupported("scatter at other coordinates")
    c, back = c
    cx.notes.append("distinct coordinates assumed (precondition of SparseTensor)")
    d = c.columns(back)
    com, m1, m2 = unify(b.axes[0].vs, d.axes[0].vs)
    d = d.sub(m2, [Star(com), d.axes[1]])
    v = as_arr(val).fresh()
    if v.axes:
        q, n1, n2 = unify_axes(v.axes[0], d.axes[1])
        body = T.sum_over(T.mul(T.subst(v.as_float().body, n1), T.subst(d.body, n2)), q)
    else:
        body = T.sum_over(T.mul(v.body, d.body), d.axes[1])
    a.axes, a.body = [Star(com)], body


def take(a, ind, axis=None, **k):
    if axis is None:
        raise Unsupported("take without axis")
    key = [slice(None)] * len(a.axes)
    key[axis] = ind if isinstance(ind, Arr) else as_arr(ind)
    return getitem(a, tuple(key))


def ravel_multi_index(inds, shape, *a, **k):
    if a or k:
        raise Unsupported("ravel_multi_index options")
    if isinstance(inds, Arr) and hasattr(inds, "seq"):
        inds = inds.seq
    if isinstance(inds, Seq) and not inds.concrete():
        c = coordinates(inds)
        if c is None:
            for J in cx.opaque.get("coords", []):
                r = J.prefix(inds, shape)
                if r is not None:
                    return r
        if c is None or c[1] or not isinstance(shape, Seq) or not shape == c[0].o.shape:
            raise Unsupported("flat indices of a symbolic number of index vectors")
        return c[0].flats()
    rows = list(inds) if not isinstance(inds, Seq) else list(iter(inds))
    shp = list(shape)
    if len(rows) != len(shp):
        raise ValueError("parameter multi_index must be a sequence of length %d" % len(shp))
    base = rows[0].fresh()
    ip = []
    for r, n in zip(rows, shp):
        r = r.fresh()
        m = {}
        for xa, ba in zip(r.axes, base.axes):
            for u, w in zip(xa, ba):
                m[u] = (w.piece(),)
        z = T.flat_index(r.sub(m, base.axes).ip)
        index_bounds(z, Z(n), base.allvars())
        ip.append(("z", z3.simplify(Z(n)), z3.simplify(z), None))
    return Arr(base.axes, kind="i", ip=tuple(ip))


def unravel_index(ind, shape):
    """row-major coordinates of flat indices"""
    a = as_arr(ind).fresh()
    shp = tuple(shape)
    if a.kind != "i":
        raise Unsupported("unravel_index of non-integers")
    ip = a.ip
    if len(ip) == len(shp) and all(p[0] == "z" and p[1] is not None and cx.int_eq(p[1], Z(n)) for p, n in zip(ip, shp)):
        return tuple(Arr(a.axes, kind="i", ip=(p,)) for p in ip)
    if len(ip) != 1 or ip[0][0] != "z":
        raise Unsupported("unravel_index")
    z = ip[0][2]
    tot = 1
    for n in shp:
        tot = tot * n
    index_bounds(z, Z(tot), a.allvars())
    if not (z3.is_app(z) and z.num_args() == 1 and z.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        raise Unsupported("unravel_index of a computed index")
    nm = z.decl().name()
    names = tuple(f"{nm}<{k}/{len(shp)}>" for k in range(len(shp)))
    rows = []
    for k, n in zip(names, shp):
        cx.opaque.setdefault("bounded", {})[k] = Z(n)
        f = z3.Function(k, z3.IntSort(), z3.IntSort())
        rows.append(Arr(a.axes, kind="i", ip=(("z", Z(n), f(z.arg(0)), None),)))
    ds = cx.opaque.get("distinct", [])
    for ns, m in list(ds):
        if ns == (nm,):           # distinct numbers have distinct coordinates
            ds.append((names, m))
    return tuple(rows)


def indices(shape):
    raise Unsupported("np.indices")


def opaque(name, sizes, params=(), label=None, frozen=False, fam=None):
    """fresh uninterpreted array"""
    fam = fam or Family(name)
    axes = [s if isinstance(s, (tuple, Star)) else new_axis(s) for s in sizes]
    slots = [pcs(a.vs if isinstance(a, Star) else a) for a in axes]
    return Arr(axes, Expr([Term(1, at=(Atom(fam, [Z(p) for p in params], slots),))]), store=Store(label or name, frozen))


def arr_eq(a, b):
    """(bool, reason): same shape and same entries"""
    a, b = as_arr(a), as_arr(b)
    a, b = a.as_float().fresh(), b.as_float().fresh()
    if a.has_star() or b.has_star():
        # dimension structure
        if not same_dims(a, b):
            return False, "shape"
        try:
            com, ma, mb = unify(a.allvars(), b.allvars())
        except ShapeMismatch as e:
            return False, "shape"
    else:
        if len(a.axes) != len(b.axes):
            return False, f"number of axes {len(a.axes)} vs {len(b.axes)}"
        ma, mb = {}, {}
        for i, (x, y) in enumerate(zip(a.axes, b.axes)):
            if not cx.int_eq(vsize(x), vsize(y)):
                return False, f"axis {i}: size {mk(vsize(x))} vs {mk(vsize(y))}"
            try:
                c, m1, m2 = unify(x, y)
            except ShapeMismatch:
                raise Unsupported("comparison of differently factorised axes")
            ma.update(m1)
            mb.update(m2)
    ok = T.equal(T.subst(a.body, ma), T.subst(b.body, mb))
    return ok, "" if ok else f"entries differ: {str(T.last_diff[0])[:400]}"


def dims(a):
    out = []
    for ax in a.axes:
        if isinstance(ax, Star):
            for v in ax.vs:
                out.append(("iv", v) if v.fac.iv else ("d", v.fac.size))
        else:
            out.append(("d", vsize(ax)))
    return out


def same_dims(a, b):
    x, y = dims(a), dims(b)
    while x and y:
        p, q = x[0], y[0]
        if p[0] == "d" and q[0] == "d":
            if not cx.int_eq(p[1], q[1]):
                return False
            x.pop(0); y.pop(0)
            continue
        if p[0] == "iv" and q[0] == "iv" and T.same_iv(p[1].fac, q[1].fac):
            x.pop(0); y.pop(0)
            continue
        done = False
        for L, M in ((x, y), (y, x)):
            if L[0][0] == "iv":
                b_, lo, hi, rv = L[0][1].fac.iv
                if cx.int_eq(lo, hi):
                    L.pop(0)
                    done = True
                    break
                if M[0][0] == "iv":
                    ob, olo, ohi, orv = M[0][1].fac.iv
                    if ob != b_ or orv != rv:
                        continue
                    cut = olo if rv else ohi
                    if cx.valid(z3.And(lo < cut, cut < hi)):
                        L[0:1] = [("iv" if v.fac.iv else "d", v if v.fac.iv else v.fac.size) for v in T.split_ivar(L[0][1], cut)]
                        done = True
                        break
                elif cx.valid(lo < hi):
                    cut = z3.simplify(hi - 1) if rv else z3.simplify(lo + 1)
                    vs = T.split_ivar(L[0][1], cut)
                    if vs and not vs[0].fac.iv and len(vs) <= 2:
                        L[0:1] = [("iv" if v.fac.iv else "d", v if v.fac.iv else v.fac.size) for v in vs]
                        done = True
                        break
        if not done:
            return False
    for L in (x, y):
        for p in L:
            if p[0] == "d" or not cx.int_eq(p[1].fac.iv[1], p[1].fac.iv[2]):
                return False
    return True
