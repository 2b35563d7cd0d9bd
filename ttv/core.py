"""Integers, booleans, path exploration and integer proof obligations.

A verification run ("scenario") executes the real function bodies (compiled from /repo's
current source, see loader.py) on symbolic values.  Every branch on a symbolic condition
is a decision point; the driver re-executes the scenario until every feasible decision
sequence has been explored.  Integer obligations are discharged by z3.
"""
from __future__ import annotations
import itertools, time
import z3


class Unsupported(BaseException):
    """The code left the subset this verifier models (never a verdict)."""


class PathDone(BaseException):
    """This path ends here (loop step established / infeasible)."""


class Refuted(BaseException):
    """An obligation failed on this path."""
    def __init__(self, name, why, model=None):
        super().__init__(name, why)
        self.name, self.why, self.model = name, why, model


class Restart(BaseException):
    """Loop candidates changed: explore again from scratch."""


class Stats:
    def __init__(self):
        self.obl = 0
        self.dis = 0
        self.by = {"z3": 0, "tensor-normaliser": 0, "evaluation": 0}
        self.z3_time = 0.0
        self.z3_queries = 0
        self.names = {}
        self.backend = {}

    def add(self, name, backend):
        self.obl += 1
        self.dis += 1
        self.by[backend] = self.by.get(backend, 0) + 1
        self.names[name] = self.names.get(name, 0) + 1
        self.backend[name] = backend


class Ctx:
    raise_internal = False

    def __init__(self):
        self.reset_all()

    def reset_all(self):
        self.stats = Stats()
        self.loopinfo = {}
        self.worklist = [[]]
        self.forced = []
        self.reset_path([])

    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.pcset = set()
        self.counter = itertools.count()
        self.solver = z3.Solver()
        self.solver.set("timeout", 4000)
        self.eqcache = {}
        self.lemmas_done = set()
        self.undecided = None
        self.rules = []
        self.families = []
        self.prodbases = {}
        self.events = []
        self.loop_stack = []
        self.mut_log = None
        self.wlog = []
        self.loop_counter = 0
        self.paramlist = []
        self.interned = []
        self.entrywise, self.linspaces = [], []
        self.opaque = {}
        self.alloc_log = []
        self.nofork = 0
        self.hash_fns = {}
        self.notes = []
        self.steps = 0

    def fresh(self, base="t"):
        return f"{base}!{next(self.counter)}"

    # -------- path condition
    def assume(self, c):
        c = Zb(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        self._instances([c])

    def _instances(self, exprs, depth=0):
        """Instances of the definition of the mode-product function P_b(lo,hi)=prod n_b(lo..hi-1)."""
        todo = []
        bnd = self.opaque.get("bounded") or {}
        pos = self.opaque.get("positive") or ()
        apps, ones = [], []
        for e in exprs:
            collect_prods(e, todo, None, bnd, apps, pos, ones)
        for x in ones:
            key = ("pos", x.sexpr())
            if key not in self.lemmas_done:
                self.lemmas_done.add(key)
                self.solver.add(x >= 1)
                f = (self.opaque.get("facts") or {}).get(x.decl().name())
                if f is not None:
                    c = f(x.arg(0), x)
                    self.solver.add(c)
                    if depth < 3:
                        self._instances([c], depth + 1)
        for nm, x in apps:
            key = ("bnd", x.sexpr())
            if key not in self.lemmas_done:
                self.lemmas_done.add(key)
                hi = bnd[nm](x) if callable(bnd[nm]) else bnd[nm]
                self.solver.add(x >= 0, x < hi)
                if callable(bnd[nm]) and depth < 3:
                    self._instances([Z(hi)], depth + 1)
        for (b, lo, hi, term) in todo:
            key = (b, lo.sexpr(), hi.sexpr())
            if key in self.lemmas_done:
                continue
            self.lemmas_done.add(key)
            P, n = prod_fn(b)
            self.solver.add(z3.Implies(lo >= hi, term == 1))
            self.solver.add(z3.Implies(lo < hi, term >= 1))
            self.solver.add(z3.Implies(lo + 1 == hi, term == n(lo)))
            self.solver.add(z3.Implies(lo < hi, term == P(lo, z3.simplify(hi - 1)) * n(z3.simplify(hi - 1))))

    def feasible(self, c):
        t = time.time()
        self._instances([c])
        r = self.solver.check(c)
        self.stats.z3_time += time.time() - t
        self.stats.z3_queries += 1
        return r

    def decide(self, c, hint=None):
        c = z3.simplify(Zb(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.sexpr()
        if key in self.eqcache:
            return self.eqcache[key]
        rt = self.feasible(c)
        if rt == z3.unsat:
            self.eqcache[key] = False
            return False
        rf = self.feasible(z3.Not(c))
        if rf == z3.unsat:
            self.eqcache[key] = True
            return True
        self.undecided = c
        v = self.choose(2, ("if", key)) == 0
        self.assume(c if v else z3.Not(c))
        self.eqcache[key] = v
        return v

    def choose(self, n, what=None):
        """n-way decision; explores all of them over successive runs."""
        if what and what[0] in ("cmp", "all", "mask"):
            self.opaque["loose"] = True
        if self.nofork:
            raise NeedFork(what)
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            v = 0
            for alt in range(n - 1, 0, -1):
                self.worklist.append(self.prefix[:pos] + self.trace[len(self.prefix):pos] + [alt])
        self.trace.append(v)
        return v

    def valid(self, c):
        """True if c follows from the path condition (z3)."""
        c = z3.simplify(Zb(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self.solver.check() == z3.unsat
        key = ("v", c.sexpr())
        if key in self.eqcache and self.eqcache[key][0] == len(self.pc):
            return self.eqcache[key][1]
        if key in self.eqcache and self.eqcache[key][1]:
            return True
        r = self.feasible(z3.Not(c)) == z3.unsat
        self.eqcache[key] = (len(self.pc), r)
        return r

    def int_eq(self, a, b):
        a, b = Z(a), Z(b)
        if a.eq(b):
            return True
        d = z3.simplify(a - b, som=True)
        if z3.is_int_value(d):
            return d.as_long() == 0
        if same_product(a, b):
            return True
        return self.valid(a == b)

    def prove(self, c, name):
        """Integer/boolean obligation."""
        c = Zb(c)
        self.stats.obl += 1
        cs = z3.simplify(c)
        if z3.is_true(cs):
            ok, model = True, None
        else:
            t = time.time()
            self._instances([cs])
            self.solver.push()
            self.solver.add(z3.Not(cs))
            self.solver.set("timeout", 20000)
            r = self.solver.check()
            self.solver.set("timeout", 4000)
            ok = r == z3.unsat
            model = self.solver.model() if r == z3.sat else None
            self.solver.pop()
            self.stats.z3_time += time.time() - t
            self.stats.z3_queries += 1
        if not ok:
            if model is None:
                raise Unsupported(f"z3 does not decide {str(cs)[:200]}")
            raise Refuted(name, f"z3 does not prove {str(cs)[:300]}", z3.Not(cs))
        self.stats.dis += 1
        self.stats.by["z3"] += 1
        self.stats.names[name] = self.stats.names.get(name, 0) + 1
        self.stats.backend[name] = "z3"

    def model(self):
        return self.solver.model() if self.solver.check() == z3.sat else None


class NeedFork(Exception):
    pass


cx = Ctx()

# ---------------------------------------------------------------- products of mode sizes
_prod = {}


def prod_fn(base):
    if base not in _prod:
        _prod[base] = (z3.Function(f"P<{base}>", z3.IntSort(), z3.IntSort(), z3.IntSort()),
                       z3.Function(f"n<{base}>", z3.IntSort(), z3.IntSort()))
    return _prod[base]


def collect_prods(e, out, seen=None, bnd=(), apps=None, pos=(), ones=None):
    seen = set() if seen is None else seen
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            nm = x.decl().name()
            if nm.startswith("P<") and x.num_args() == 2:
                out.append((nm[2:-1], x.arg(0), x.arg(1), x))
            elif nm in bnd and x.num_args():
                apps.append((nm, x))
            elif nm in pos and x.num_args() == 1:
                ones.append(x)
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            pass


def _factors(z, out):
    """factors of a product: (base, lo, hi) for n<base>(lo) ... n<base>(hi-1), other factors as they are; False if z is no product"""
    if z3.is_mul(z):
        return all(_factors(c, out) for c in z.children())
    if z3.is_int_value(z):
        if z.as_long() != 1:
            out.append(z)
        return True
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_UNINTERPRETED and z.num_args():
        nm = z.decl().name()
        if nm.startswith("n<") and z.num_args() == 1:
            out.append((nm[2:-1], z.arg(0), z3.simplify(z.arg(0) + 1)))
            return True
        if nm.startswith("P<") and z.num_args() == 2:
            out.append((nm[2:-1], z.arg(0), z.arg(1)))
            return True
    if z3.is_add(z):
        return False
    out.append(z)
    return True


def _joined(fs):
    """adjacent ranges of one shape as one range"""
    out = [f for f in fs]
    go = True
    while go:
        go = False
        for i, f in enumerate(out):
            for j, g in enumerate(out):
                if i == j or not isinstance(f, tuple) or not isinstance(g, tuple) or f[0] != g[0]:
                    continue
                if cx.int_eq(f[2], g[1]) and cx.valid(z3.And(f[1] <= f[2], g[1] <= g[2])):
                    out = [x for k, x in enumerate(out) if k not in (i, j)] + [(f[0], f[1], g[2])]
                    go = True
                    break
            if go:
                break
    return [f for f in out if not (isinstance(f, tuple) and cx.int_eq(f[1], f[2]))]


def same_product(a, b):
    """two products of sizes are equal by the meaning of P<base>(lo, hi) = n<base>(lo) ... n<base>(hi-1)"""
    x, y = [], []
    if not (_factors(z3.simplify(a), x) and _factors(z3.simplify(b), y)) or not any(isinstance(f, tuple) for f in x + y) or len(x + y) < 3:
        return False
    x, y = _joined(x), _joined(y)
    if len(x) != len(y):
        return False
    for f in x:
        for g in y:
            if isinstance(f, tuple) == isinstance(g, tuple) and (f[0] == g[0] and cx.int_eq(f[1], g[1]) and cx.int_eq(f[2], g[2]) if isinstance(f, tuple) else f.eq(g)):
                y.remove(g)
                break
        else:
            return False
    return True


def prod_term(base, lo, hi):
    lo, hi = z3.simplify(Z(lo)), z3.simplify(Z(hi))
    P, n = prod_fn(base)
    d = z3.simplify(hi - lo)
    if z3.is_int_value(d):
        k = d.as_long()
        if k <= 0:
            return z3.IntVal(1)
        if k <= 4:
            r = n(lo)
            for j in range(1, k):
                r = r * n(z3.simplify(lo + j))
            return r
    return P(lo, hi)


# ---------------------------------------------------------------- SymInt / SymBool
def Z(x):
    if isinstance(x, SymInt):
        return x.z
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if hasattr(x, "__index__"):
        return z3.IntVal(int(x))
    if isinstance(x, float) and x == int(x):
        return z3.IntVal(int(x))
    from .arr import Arr, IntArr0
    if isinstance(x, Arr):
        return IntArr0(x)
    raise Unsupported(f"not an integer: {type(x)}")


def Zb(c):
    if isinstance(c, SymBool):
        return c.z
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, z3.BoolRef):
        return c
    raise Unsupported(f"not a boolean: {type(c)}")


def mk(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


def isint(x):
    import numpy as _np
    return isinstance(x, (int, SymInt, _np.integer)) and not isinstance(x, bool)


class SymBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return cx.decide(self.z)

    def __and__(self, o):
        return SymBool(z3.And(self.z, Zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, Zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __eq__(self, o):
        return SymBool(self.z == Zb(o))

    def __ne__(self, o):
        return SymBool(self.z != Zb(o))

    def __hash__(self):
        return hash(self.z)

    def all(self):
        return self

    def any(self):
        return self


class SymInt:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def _num(self, o):
        import numpy as _np
        return isinstance(o, (int, SymInt, _np.integer)) or (isinstance(o, float) and o == int(o))

    def _op(self, o, f):
        from .arr import Arr, SymScalar
        if isinstance(o, (Arr, SymScalar)):
            return NotImplemented
        if isinstance(o, float) and o != int(o):
            return NotImplemented
        if not self._num(o):
            return NotImplemented
        return mk(f(self.z, Z(o)))

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            from .seqs import rep
            return rep(o, self)
        return self._op(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return mk(-self.z)
    def __pos__(self): return self
    def __abs__(self): return mk(z3.If(self.z >= 0, self.z, -self.z))

    def _posdiv(self, b):
        if not cx.valid(b > 0):
            raise Unsupported("division by a possibly non-positive integer")

    def __floordiv__(self, o):
        def f(a, b):
            self._posdiv(b)
            return a / b
        return self._op(o, f)

    def __rfloordiv__(self, o):
        self._posdiv(self.z)
        return mk(Z(o) / self.z)

    def __mod__(self, o):
        def f(a, b):
            self._posdiv(b)
            return a % b
        return self._op(o, f)

    def __rmod__(self, o):
        self._posdiv(self.z)
        return mk(Z(o) % self.z)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.z
            return mk(r)
        if isinstance(o, float):
            from .arr import SymScalar
            return SymScalar.of(self) ** o
        raise Unsupported("integer power")

    def __rpow__(self, o):
        raise Unsupported("integer power")

    def __truediv__(self, o):
        from .arr import SymScalar
        return SymScalar.of(self) / o

    def __rtruediv__(self, o):
        from .arr import SymScalar
        return SymScalar.of(o) / SymScalar.of(self)

    def _cmp(self, o, f):
        from .arr import Arr, SymScalar
        if isinstance(o, (Arr, SymScalar)):
            return NotImplemented
        if isinstance(o, float):
            if o == float("inf"):
                return bool(f(0, 1)) if True else None
        if not self._num(o):
            return NotImplemented
        c = z3.simplify(f(self.z, Z(o)))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return SymBool(c)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        raise Unsupported("symbolic integer as a dictionary key")

    def __bool__(self):
        return cx.decide(self.z != 0)

    def __index__(self):
        s = z3.simplify(self.z)
        if z3.is_int_value(s):
            return s.as_long()
        for k in (0, 1, 2, -1, 3):      # fixed by what is known on this path
            if cx.valid(self.z == k):
                return k
        raise Unsupported("symbolic integer used where CPython needs a concrete one")

    def __int__(self):
        return self.__index__()

    def __repr__(self):
        return f"<{self.z}>"

    def __format__(self, spec):
        return repr(self)

    def item(self):
        return self

    def astype(self, *_a, **_k):
        return self

    dtype = "int"


def smin(*xs):
    r = xs[0]
    for x in xs[1:]:
        if isinstance(r, int) and isinstance(x, int):
            r = min(r, x)
            continue
        a, b = Z(r), Z(x)
        known = cx.opaque.setdefault("smin", {})
        k = (a.sexpr(), b.sexpr())
        if k in known:                 # the same question gets the same answer
            r = known[k]
            continue
        if cx.valid(a <= b):
            continue
        if cx.valid(b <= a):
            r = x
            continue
        r = known[k] = mk(z3.If(a <= b, a, b))
    return r


def smax(*xs):
    r = xs[0]
    for x in xs[1:]:
        if isinstance(r, int) and isinstance(x, int):
            r = max(r, x)
            continue
        a, b = Z(r), Z(x)
        known = cx.opaque.setdefault("smax", {})
        k = (a.sexpr(), b.sexpr())
        if k in known:                 # the same question gets the same answer
            r = known[k]
            continue
        if cx.valid(a >= b):
            continue
        if cx.valid(b >= a):
            r = x
            continue
        r = known[k] = mk(z3.If(a >= b, a, b))
    return r


class Result:
    def __init__(self, verdict, detail, name=None, sizes=None, value_path=False, paths=0):
        self.verdict, self.detail, self.name, self.sizes, self.value_path, self.paths = verdict, detail, name, sizes, value_path, paths
        self.open_sizes = []


def small_model(extra=None):
    """Values of the named sizes on the current path, as small as the solver finds them."""
    names = cx.opaque.get("sizes", {})
    s = cx.solver
    s.set("timeout", 2000)
    s.push()
    try:
        if extra is not None:
            s.add(extra)
        for b in (2, 3, 4, 6, 10, 30, 100, 1000, None):
            s.push()
            if b is not None:
                for z in names.values():
                    s.add(z <= b)
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
            if m is not None:
                return {n: m.eval(z, model_completion=True).as_long() for n, z in names.items()}
    finally:
        s.pop()
        s.set("timeout", 4000)
    return None


def explore(scenario, max_paths=4000, deadline=None):
    """Run `scenario()` over every feasible decision sequence: 'proved' | 'refuted' | 'undecided'."""
    restarts = 0
    cx.worklist = [[]]
    n = 0
    undecided = None
    open_sizes = []         # sizes that reach a path the verifier cannot follow

    def left_open():
        try:
            m = small_model() if len(open_sizes) < 12 else None
        except z3.Z3Exception:
            m = None
        if m is not None and m not in open_sizes:
            open_sizes.append(m)

    def result(*a):
        r = Result(*a)
        r.open_sizes = open_sizes
        return r
    while cx.worklist:
        prefix = cx.worklist.pop()
        n += 1
        if n > max_paths:
            return Result("undecided", f"more than {max_paths} paths")
        if deadline and time.time() > deadline:
            return Result("undecided", "time limit")
        cx.reset_path(prefix)
        try:
            scenario()
        except PathDone:
            pass
        except Restart:
            restarts += 1
            if restarts > 60:
                return Result("undecided", "no loop invariant found")
            cx.worklist = [[]]
            continue
        except Refuted as e:
            if cx.solver.check() == z3.unsat:
                continue
            return Result("refuted", f"{e.why}", e.name, small_model(e.model), bool(cx.events or cx.opaque.get("loose")), n)
        except Unsupported as e:
            # other paths may still be refuted: keep the reason and go on
            undecided = undecided or f"unsupported: {e}"
            left_open()
            if n > 200:
                return result("undecided", undecided)
        except RecursionError:
            return Result("undecided", "recursion")
        except z3.Z3Exception as e:
            undecided = undecided or f"internal z3 error {e}"
            if cx.raise_internal:
                raise
        except Exception as e:   # an exception of the code under test
            if cx.solver.check() == z3.unsat:
                continue
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            loc = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-3:])
            if getattr(e, "_verifier_internal", False) or not _from_code(tb) or isinstance(e, (AttributeError, NameError, NotImplementedError)):
                if cx.raise_internal:
                    raise
                undecided = undecided or f"internal {type(e).__name__}: {e} at {loc}"
                left_open()
                continue
            return Result("refuted", f"the code raises {type(e).__name__}: {str(e)[:200]} at {loc}", "no-exception", small_model(), bool(cx.events or cx.opaque.get("loose")), n)
    if undecided:
        return result("undecided", undecided)
    return Result("proved", f"{n} paths", paths=n)


def _from_code(tb):
    """The exception was raised inside (or by a modelled library call from) the code under test."""
    for i, f in enumerate(tb):
        if "<repo>" in f.filename:
            rest = tb[i + 1:]
            # an internal verifier error below the code frame is marked by its type
            return True
    return False
