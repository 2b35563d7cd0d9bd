"""Sequences of symbolic length: concatenations of concrete elements and generic segments."""
from __future__ import annotations
import z3
from .core import cx, Z, mk, SymInt, SymBool, Unsupported, prod_fn, prod_term, PathDone, isint, NeedFork


class Gen:
    """Elements f(lo), ..., f(hi-1) (reversed order if rev).  tag=("n", base): the elements are mode sizes."""
    __slots__ = ("lo", "hi", "f", "rev", "tag")

    def __init__(self, lo, hi, f, rev=False, tag=None):
        self.lo, self.hi = z3.simplify(Z(lo)), z3.simplify(Z(hi))
        self.f, self.rev, self.tag = f, rev, tag

    def len(self):
        return z3.simplify(self.hi - self.lo)

    def at(self, j):
        j = Z(j)
        return self.f(z3.simplify(self.hi - 1 - j if self.rev else self.lo + j))

    def cut(self, a, b):
        """elements a..b-1 (positions), 0<=a<=b<=len"""
        a, b = Z(a), Z(b)
        if self.rev:
            return Gen(self.hi - b, self.hi - a, self.f, True, self.tag)
        return Gen(self.lo + a, self.lo + b, self.f, False, self.tag)


class Seq:
    """parts: list of ("e", value) or Gen.  kind: list|tuple"""

    def __init__(self, parts, kind="list"):
        self.parts = []
        for p in parts:
            if isinstance(p, Gen):
                n = p.len()
                if z3.is_int_value(n):
                    k = n.as_long()
                    if k <= 8:
                        for j in range(max(k, 0)):
                            self.parts.append(("e", p.at(j)))
                        continue
                self.parts.append(p)
            else:
                self.parts.append(p)
        self.kind = kind
        self.version = 0

    # ---- structure
    def zlen(self):
        n = z3.IntVal(0)
        for p in self.parts:
            n = n + (p.len() if isinstance(p, Gen) else 1)
        return z3.simplify(n)

    def concrete(self):
        return all(not isinstance(p, Gen) for p in self.parts)

    def tolist(self):
        return [p[1] for p in self.parts]

    def at(self, j):
        """element at (symbolic) position j >= 0"""
        j = z3.simplify(Z(j))
        off = z3.IntVal(0)
        for i, p in enumerate(self.parts):
            ln = p.len() if isinstance(p, Gen) else z3.IntVal(1)
            nxt = z3.simplify(off + ln)
            last = i == len(self.parts) - 1
            if isinstance(p, Gen):
                if cx.decide(z3.And(j >= off, j < nxt)):
                    return p.at(z3.simplify(j - off))
            elif cx.decide(j == off):
                return p[1]
            off = nxt
        raise IndexError("list index out of range")

    def _norm(self, i):
        n = self.zlen()
        if isinstance(i, int):
            return z3.simplify(n + i) if i < 0 else z3.IntVal(i)
        z = Z(i)
        if cx.decide(z < 0):
            return z3.simplify(n + z)
        return z

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        j = self._norm(i)
        if not cx.decide(z3.And(j >= 0, j < self.zlen())):
            raise IndexError("list index out of range")
        return self.at(j)

    def slice(self, s):
        step = s.step
        if step is not None and not isinstance(step, int):
            step = step.__index__()
        if step not in (None, 1, -1):
            raise Unsupported("slice step")
        n = self.zlen()

        def clamp(x, lo, hi):
            if cx.decide(x < lo):
                return lo
            if cx.decide(x > hi):
                return hi
            return x

        def nrm(x):
            x = Z(x)
            if cx.decide(x < 0):
                x = z3.simplify(x + n)
            return x
        if step == -1:
            hi = n if s.start is None else clamp(z3.simplify(nrm(s.start) + 1), z3.IntVal(0), n)
            lo = z3.IntVal(0) if s.stop is None else clamp(z3.simplify(nrm(s.stop) + 1), z3.IntVal(0), n)
        else:
            lo = z3.IntVal(0) if s.start is None else clamp(nrm(s.start), z3.IntVal(0), n)
            hi = n if s.stop is None else clamp(nrm(s.stop), z3.IntVal(0), n)
        if cx.decide(hi <= lo):
            return mkseq([], self.kind)
        out, off = [], z3.IntVal(0)
        for p in self.parts:
            ln = p.len() if isinstance(p, Gen) else z3.IntVal(1)
            nxt = z3.simplify(off + ln)
            if isinstance(p, Gen):
                a = z3.IntVal(0) if cx.decide(lo <= off) else (z3.simplify(lo - off) if cx.decide(lo < nxt) else None)
                b = ln if cx.decide(hi >= nxt) else (z3.simplify(hi - off) if cx.decide(hi > off) else None)
                if a is not None and b is not None:
                    out.append(p.cut(a, b))
            elif cx.decide(z3.And(off >= lo, off < hi)):
                out.append(p)
            off = nxt
        r = mkseq(out, self.kind)
        return rev(r) if step == -1 else r

    def __setitem__(self, i, v):
        j = self._norm(i)
        self.version += 1
        off = z3.IntVal(0)
        for k, p in enumerate(self.parts):
            ln = p.len() if isinstance(p, Gen) else z3.IntVal(1)
            nxt = z3.simplify(off + ln)
            if cx.decide(z3.And(j >= off, j < nxt)):
                if isinstance(p, Gen):
                    a = z3.simplify(j - off)
                    self.parts[k:k + 1] = [p.cut(z3.IntVal(0), a), ("e", v), p.cut(z3.simplify(a + 1), ln)]
                    self.parts = Seq(self.parts).parts
                    self.parts = [q for q in self.parts if not (isinstance(q, Gen) and cx.valid(q.len() == 0))]
                else:
                    self.parts[k] = ("e", v)
                return
            off = nxt
        raise IndexError("list assignment index out of range")

    def __iter__(self):
        if self.concrete():
            return iter(self.tolist())
        raise Unsupported("native iteration over a sequence of symbolic length")

    def __len__(self):
        n = self.zlen()
        if z3.is_int_value(n):
            return n.as_long()
        raise Unsupported("native len of a symbolic sequence")

    def __bool__(self):
        return cx.decide(self.zlen() > 0)

    def __add__(self, o):
        if isinstance(o, (list, tuple)):
            o = of(o)
        if not isinstance(o, Seq):
            return NotImplemented
        return mkseq(self.parts + o.parts, self.kind)

    def __radd__(self, o):
        if isinstance(o, (list, tuple)):
            return mkseq(of(o).parts + self.parts, self.kind)
        return NotImplemented

    def append(self, v):
        self.version += 1
        self.parts.append(("e", v))

    def extend(self, o):
        self.version += 1
        self.parts.extend(of(o).parts)

    def copy(self):
        return Seq(self.parts, self.kind)

    def __deepcopy__(self, memo):
        import copy
        return Seq([p if isinstance(p, Gen) else ("e", copy.deepcopy(p[1], memo)) for p in self.parts], self.kind)

    def __eq__(self, o):
        if isinstance(o, (list, tuple)):
            o = of(o)
        if not isinstance(o, Seq):
            return False
        if self is o:
            return True
        return seq_eq(self, o)

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __repr__(self):
        return f"Seq({self.kind}:{self.parts})"


def mkseq(parts, kind):
    s = Seq(parts, kind)
    if s.concrete():
        return list(s.tolist()) if kind == "list" else tuple(s.tolist())
    return s


def of(x):
    if isinstance(x, Seq):
        return x
    return Seq([("e", v) for v in x], "tuple" if isinstance(x, tuple) else "list")


def rev(s):
    s = of(s)
    out = []
    for p in reversed(s.parts):
        out.append(Gen(p.lo, p.hi, p.f, not p.rev, p.tag) if isinstance(p, Gen) else p)
    return mkseq(out, s.kind)


def rep(x, n):
    """[v]*n for symbolic n"""
    if len(x) != 1:
        raise Unsupported("repeating a longer sequence a symbolic number of times")
    v = x[0]
    nn = Z(n)
    if not cx.decide(nn > 0):
        return type(x)()
    return mkseq([Gen(z3.IntVal(0), nn, lambda k: v)], "tuple" if isinstance(x, tuple) else "list")


def decide_all(cond, n, what):
    """whether cond(k) holds for every 0 <= k < n.  If it is not known, there is a path with a k for which it does not hold, and one where it is
    assumed for the indices that the path speaks of"""
    k = z3.Int(cx.fresh("k"))
    r = z3.And(k >= 0, k < n)
    if not cx.decide(n > 0):
        return True
    cx.assume(r)        # some index, and the decisions about it made while cond(k) is found
    c = cond(k)
    if cx.valid(c):
        return True
    if cx.valid(z3.Not(c)):
        return False
    if cx.choose(2, what) == 1:
        cx.assume(z3.And(r, z3.Not(c)))
        if cx.solver.check() == z3.unsat:
            raise PathDone()
        return False
    for x in {y.sexpr(): y for p in cx.pc for y in _consts(p) if y.sort() == z3.IntSort() and y.decl().name().startswith("k!")}.values():
        for y in (x, z3.simplify(x - 1), z3.simplify(n - x)):
            if cx.decide(z3.And(y >= 0, y < n)):
                cx.assume(cond(y))
    if cx.solver.check() == z3.unsat:
        raise PathDone()
    return True


def seq_eq(a, b):
    """decides equality of two integer (shape/rank) sequences"""
    if not cx.decide(a.zlen() == b.zlen()):
        return False
    if tags(a) is not None and tags(a) == tags(b):
        return True
    if len(a.parts) == 1 and len(b.parts) == 1 and isinstance(a.parts[0], Gen) and isinstance(b.parts[0], Gen):
        return decide_all(lambda k: Z(a.parts[0].at(k)) == Z(b.parts[0].at(k)), a.zlen(), "seq_eq")
    j = z3.Int(cx.fresh("j"))
    # generic element comparison; undecided differences fork into "equal" and "some element differs"
    saved = cx.nofork
    k = cx.choose(2, "seq_eq")
    if k == 0:
        # all equal: only assumed if not refutable; verify cheaply by trying generic element
        cx.notes.append("sequence equality assumed on this path")
        cx.seq_eq_assumed.append((a, b)) if hasattr(cx, "seq_eq_assumed") else None
        return True
    cx.assume(z3.And(j >= 0, j < a.zlen()))
    x, y = a.at(j), b.at(j)
    cx.assume(Z(x) != Z(y))
    if cx.solver.check() == z3.unsat:
        raise PathDone()
    return False


def tags(s):
    out = []
    for p in s.parts:
        if isinstance(p, Gen):
            if p.tag is None:
                return None
            out.append((p.tag, p.lo.sexpr(), p.hi.sexpr(), p.rev))
        else:
            v = p[1]
            out.append(("e", Z(v).sexpr() if isint(v) else None))
    return out


def zipseq(seqs, strict=False):
    seqs = [of(s) for s in seqs]
    lens = [s.zlen() for s in seqs]
    n = lens[0]
    for m in lens[1:]:
        if cx.decide(n == m):
            continue
        if strict:
            raise ValueError("zip() arguments have different lengths")
        n = n if cx.decide(n < m) else m
    return mkseq([Gen(z3.IntVal(0), n, lambda j: tuple(s.at(j) for s in seqs))], "list")


def enumseq(s, start=0):
    s = of(s)
    return mkseq([Gen(z3.IntVal(0), s.zlen(), lambda j: (mk(j + start), s.at(j)))], "list")


def rangeseq(lo, hi, step=1):
    if step not in (1, -1):
        raise Unsupported("range step")
    lo, hi = Z(lo), Z(hi)
    if step == -1:
        lo, hi = hi + 1, lo + 1
    if not cx.decide(hi > lo):
        return []
    return mkseq([Gen(lo, hi, lambda k: mk(k), step == -1)], "list")


def frozen(f):
    """f with the values that its free variables have now: the elements of a symbolic sequence are computed later than in the program"""
    import types
    cl = getattr(f, "__closure__", None)
    if not cl or not isinstance(f, types.FunctionType):
        return f
    from .arr import Arr, Store
    cells, arrs, objs = [], [], []
    for c in cl:
        try:
            v = c.cell_contents
        except ValueError:
            cells.append(types.CellType())
            continue
        if isinstance(v, Arr):
            arrs.append(v)
        elif type(v) is list:
            arrs += [x for x in v if isinstance(x, Arr)]
            v = list(v)
        elif isinstance(v, Seq):
            v = Seq(v.parts, v.kind)
        elif type(v).__module__.startswith("tt_sketch") and hasattr(v, "__dict__"):
            objs.append((v, dict(v.__dict__), [(x, x.version if isinstance(x, Seq) else len(x)) for x in v.__dict__.values() if isinstance(x, (Seq, list))]))
        cells.append(types.CellType(v))
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))
    if not arrs and not objs:
        return g
    w0 = len(cx.wlog)

    def h(*a):
        if any(x is y for y, _, _ in cx.wlog[w0:] for x in arrs):
            raise Unsupported("an array that the elements of a symbolic sequence are made of changes later")
        for v, d, ls in objs:
            e = v.__dict__
            if any(n not in e or e[n] is not x for n, x in d.items()) or any((x.version if isinstance(x, Seq) else len(x)) != n for x, n in ls):
                raise Unsupported("an object that the elements of a symbolic sequence are made of changes later")
        return g(*a)
    return h


def mapseq(f, s, kind="list"):
    s, f = of(s), frozen(f)
    gens = [p for p in s.parts if isinstance(p, Gen)]
    if gens:
        # a generic element is evaluated once, on a path of its own, for exceptions and obligations
        c = cx.choose(1 + len(gens), "comprehension")
        if c > 0:
            p = gens[c - 1]
            j = z3.Int(cx.fresh("j"))
            cx.assume(z3.And(j >= 0, j < p.len()))
            f(p.at(j))
            raise PathDone()
    out = []
    for p in s.parts:
        if isinstance(p, Gen):
            out.append(Gen(p.lo, p.hi, (lambda k, g=p.f: f(g(k))), p.rev))
        else:
            out.append(("e", f(p[1])))
    return merged(mkseq(out, kind))


def filterseq(f, s):
    """the elements that f holds for: f must be decided for a whole segment, after taking off a few elements at its ends"""
    s = of(s)
    out = []

    def cuts(c, j):
        """where the condition c on the position j may change"""
        from .term import solve_linear
        st, seen = [c], []
        while st:
            x = st.pop()
            if x.num_args() == 2 and x.arg(0).sort() == z3.IntSort() and (z3.is_le(x) or z3.is_lt(x) or z3.is_ge(x) or z3.is_gt(x) or z3.is_eq(x)):
                t = solve_linear(j, x.arg(0), x.arg(1))
                if t is not None and not any(y.eq(j) for y in _consts(t)):
                    seen += [z3.simplify(t), z3.simplify(t + 1)]
            elif x.sort() == z3.BoolSort():
                st.extend(x.children())
        return seen

    def whole(p):
        nonlocal points
        points = []
        j = z3.Int(cx.fresh("j"))
        cx.undecided = None
        lem, npc, eq = set(cx.lemmas_done), len(cx.pc), cx.eqcache
        cx.eqcache = dict(eq)
        cx.solver.push()
        cx.nofork += 1
        try:
            cx.solver.add(j >= 0, j < p.len())
            return bool(f(p.at(j)))
        except NeedFork:
            points = cuts(cx.undecided, j) if cx.undecided is not None else []
            return None
        finally:
            cx.nofork -= 1
            cx.solver.pop()
            cx.eqcache, cx.lemmas_done = eq, lem
            del cx.pc[npc:]
    points, work, n_cut = [], list(s.parts), 0
    while work:
        p = work.pop(0)
        if not isinstance(p, Gen):
            if f(p[1]):
                out.append(p)
            continue
        head, split = [], False
        for n in range(7):
            if not cx.decide(p.len() > 0):
                p = None
                break
            c = whole(p)
            if c is not None:
                break
            for t in points:
                if n_cut < 8 and not z3.is_int_value(t) and cx.decide(z3.And(t > 0, t < p.len())):
                    n_cut, split = n_cut + 1, True
                    work = [p.cut(z3.IntVal(0), t), p.cut(t, p.len())] + work
                    break
            if split:
                break
            if n == 6:
                raise Unsupported("filter over a sequence of symbolic length")
            # take an element off the end where the filter is not as in the middle
            x = p.at(z3.IntVal(0))
            if f(x):
                head.append(("e", x))
            p = p.cut(z3.IntVal(1), p.len())
        out += head
        if p is not None and c and not split:
            out.append(p)
    return mkseq(out, "list")


def isin(x, s):
    """x in s, as a condition"""
    c = []
    for p in s.parts:
        if not isinstance(p, Gen):
            if not isint(p[1]):
                raise Unsupported("membership in a symbolic sequence")
            c.append(Z(x) == Z(p[1]))
            continue
        k = z3.Int(cx.fresh("k"))
        v = p.f(k)
        if not isint(v):
            raise Unsupported("membership in a symbolic sequence")
        t = z3.simplify(Z(v) - k)
        if any(y.eq(k) for y in _consts(t)):
            raise Unsupported("membership in a symbolic sequence")
        c.append(z3.And(Z(x) >= p.lo + t, Z(x) < p.hi + t))
    return cx.decide(z3.Or(*c)) if c else False


def tagged(p):
    """(function, first argument, last argument + 1, reversed) if the elements are consecutive values of one integer function"""
    if not isinstance(p, Gen):
        if not isint(p[1]):
            return None
        z = z3.simplify(Z(p[1]))
        if z3.is_app(z) and z.num_args() == 1 and z.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            a = z.arg(0)
            return z.decl().name(), a, z3.simplify(a + 1), None
        return None
    if p.tag is not None:
        return (f"n<{p.tag[1]}>" if p.tag[0] == "n" else p.tag[1]), p.lo, p.hi, p.rev
    j = z3.Int(cx.fresh("j"))
    eq, lem, npc = cx.eqcache, set(cx.lemmas_done), len(cx.pc)
    cx.eqcache = dict(eq)
    cx.solver.push()
    cx.nofork += 1
    try:
        cx.solver.add(j >= p.lo, j < p.hi)
        v = p.f(j)
        z = z3.simplify(Z(v)) if isint(v) else None
    except (NeedFork, Unsupported, IndexError):
        z = None
    finally:
        cx.nofork -= 1
        cx.solver.pop()
        cx.eqcache, cx.lemmas_done = eq, lem
        del cx.pc[npc:]
    if z is None or not (z3.is_app(z) and z.num_args() == 1 and z.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        return None
    c = z3.simplify(z.arg(0) - j)
    if any(x.eq(j) for x in _consts(c)):
        c = z3.simplify(z.arg(0) + j)
        if any(x.eq(j) for x in _consts(c)):
            return None
        # f(c - j): runs backwards
        return z.decl().name(), z3.simplify(c - p.hi + 1), z3.simplify(c - p.lo + 1), not p.rev
    return z.decl().name(), z3.simplify(p.lo + c), z3.simplify(p.hi + c), p.rev


def _consts(z):
    out, st = [], [z]
    while st:
        x = st.pop()
        if z3.is_const(x):
            out.append(x)
        st.extend(x.children())
    return out


def merged(s):
    """joins the parts of an integer sequence that are consecutive values of one function"""
    if not isinstance(s, Seq) or not all(isinstance(p, Gen) or isint(p[1]) for p in s.parts):
        return s
    out = []
    for p in s.parts:
        t = tagged(p)
        if out and t and out[-1][0]:
            u = out[-1][0]
            if u[0] == t[0]:
                for r in (False, True):
                    if t[3] in (r, None) and u[3] in (r, None):
                        if not r and cx.int_eq(u[2], t[1]):
                            out[-1] = ((u[0], u[1], t[2], r), None)
                            break
                        if r and cx.int_eq(t[2], u[1]):
                            out[-1] = ((u[0], t[1], u[2], r), None)
                            break
                else:
                    out.append((t, p))
                continue
        out.append((t, p))
    parts = []
    for t, p in out:
        if t is None or (p is not None and not isinstance(p, Gen)):
            parts.append(p)
        else:
            f = z3.Function(t[0], z3.IntSort(), z3.IntSort())
            tag = ("n", t[0][2:-1]) if t[0].startswith("n<") else ("f", t[0])
            parts.append(Gen(t[1], t[2], (lambda k, f=f: mk(f(z3.simplify(k)))), bool(t[3]), tag))
    return mkseq(parts, s.kind)


def shape_seq(base, lo, hi, rev_=False, kind="tuple"):
    n = prod_fn(base)[1]
    return mkseq([Gen(lo, hi, lambda k: mk(n(k)), rev_, ("n", base))], kind)


# ------------------------------------------------------------------ sums
def _generic(size, f):
    """f(v) for a generic 0 <= v < size; what it decides must not depend on v"""
    from . import term as T
    from .maploop import Generic
    v = T.Var(T.Fac(size=size))
    cx.nofork += 1
    try:
        with Generic(v):
            return f(v)
    except NeedFork:
        raise Unsupported("different paths for different elements of a sum")
    finally:
        cx.nofork -= 1


def _same_elems(n, f, g):
    def chk(v):
        return cx.int_eq(Z(f(v.z)), Z(g(v.z)))
    try:
        return _generic(n, chk)
    except (Unsupported, IndexError):
        return False


def _try_int(f, k):
    """f(k) without deciding anything"""
    cx.nofork += 1
    try:
        r = f(z3.simplify(k))
        return Z(r) if isint(r) else None
    except (NeedFork, Unsupported, IndexError):
        return None
    finally:
        cx.nofork -= 1


def int_total(lo, hi, f):
    """f(lo) + ... + f(hi-1): one constant for all the sums with the same number of equal terms"""
    n = z3.simplify(hi - lo)
    tab = cx.opaque.setdefault("sums", [])
    at = lambda j: f(z3.simplify(lo + j))
    for m, g, c in tab:
        if cx.int_eq(n, m) and _same_elems(n, at, g):
            return c
    c = z3.Int(cx.fresh("total"))
    tab.append((n, at, c))
    return c


def sumseq(s, start=0):
    """sum of the elements of a sequence of symbolic length"""
    from . import term as T, arr as A
    parts = list(of(s).parts)
    total = start
    i = 0
    while i < len(parts):
        p = parts[i]
        if not isinstance(p, Gen):
            i += 1
            continue
        lo, hi, n = p.lo, p.hi, p.len()
        if isint(p.at(z3.IntVal(0))):
            # neighbouring elements that continue the segment join it
            while True:
                b, a = (i - 1, i + 1) if not p.rev else (i + 1, i - 1)
                if 0 <= b < len(parts) and not isinstance(parts[b], Gen) and isint(parts[b][1]):
                    x = _try_int(p.f, lo - 1)
                    if x is not None and cx.int_eq(x, Z(parts[b][1])):
                        lo = z3.simplify(lo - 1)
                        parts.pop(b)
                        i -= b < i
                        continue
                if 0 <= a < len(parts) and not isinstance(parts[a], Gen) and isint(parts[a][1]):
                    x = _try_int(p.f, hi)
                    if x is not None and cx.int_eq(x, Z(parts[a][1])):
                        hi = z3.simplify(hi + 1)
                        parts.pop(a)
                        i -= a < i
                        continue
                break
            if not cx.valid(hi >= lo):
                raise Unsupported("sum over a segment that may be empty")
            parts[i] = ("e", mk(int_total(lo, hi, p.f)))
        else:
            def one(v):
                x = p.at(v.z)
                if isinstance(x, Arr_()):
                    x = x.fresh()
                    if _in_scalars(x.body, v):
                        raise Unsupported("sum of integers as reals")
                    return A.Arr(x.axes, T.sum_over(x.body, (v,)))
                x = A.SymScalar.of(A.scalar_of(x))
                if _in_scalars(x.e, v):
                    raise Unsupported("sum of integers as reals")
                return A.SymScalar(T.sum_over(x.e, (v,)))
            parts[i] = ("e", _generic(n, one))
        i += 1
    for p in parts:
        total = total + p[1]
    return total


def _in_scalars(e, v):
    def men(x):
        if isinstance(x, (tuple, list)):
            return any(men(y) for y in x)
        return z3.is_expr(x) and any(q.eq(v.z) for q in _consts(x))
    return any(men(t.sc) for t in e.t)


def Arr_():
    from .arr import Arr
    return Arr


def holds_for(s, every):
    """all(s) / any(s) of truth values: decided for each segment as a whole"""
    for p in of(s).parts:
        if isinstance(p, Gen):
            if not cx.decide(p.len() > 0):
                continue
            v = _generic(p.len(), lambda v: bool(p.at(v.z)))
        else:
            v = bool(p[1])
        if v != every:
            return not every
    return every
