"""Random sources as uninterpreted functions of their seed.

Assumed contract: numpy's generators are deterministic functions of the seed they are given and of the number and kind of
earlier requests since they were seeded.  Everything that is not determined by the arguments of the call under contract
(entropy, state left behind by earlier calls) is a fresh unknown, so a result that depends on it cannot be proved equal."""
from __future__ import annotations
import z3
from . import arr as A, snp, term as T
from .arr import Arr, SymScalar
from .core import cx, Z, mk, SymBool, SymInt, Unsupported, isint
from .seqs import Seq, of as seq_of


def key_of(x):
    if isinstance(x, Tok):
        return x.key
    if isinstance(x, SymInt):
        z = z3.simplify(x.z, som=True)
        k = z.sexpr()
        cx.opaque.setdefault("keyexpr", {})[k] = z
        return ("int", k)
    if isinstance(x, (int, float, str, bool, type(None))):
        return ("c", x)
    if isinstance(x, SymBool):
        return key_of(bool(x))
    if isinstance(x, (list, tuple)):
        return ("t",) + tuple(key_of(v) for v in x)
    if isinstance(x, Seq):
        raise Unsupported("random request of symbolic order")
    if isinstance(x, Arr) and not x.axes and x.kind == "i":
        return key_of(A.scalar_of(x))
    if hasattr(x, "item"):
        return ("c", x.item())
    raise Unsupported(f"random request depending on {type(x).__name__}")


class Tok:
    """A number the verifier knows only as a function of its ingredients."""
    __slots__ = ("key",)
    __array_priority__ = 3000

    def __init__(self, *key):
        self.key = key

    def _b(self, op, o, rev=False):
        try:
            k = key_of(o)
        except Unsupported:
            return NotImplemented
        return Tok(op, k, self.key) if rev else Tok(op, self.key, k)

    def __add__(self, o): return self._b("+", o)
    def __radd__(self, o): return self._b("+", o, True)
    def __sub__(self, o): return self._b("-", o)
    def __rsub__(self, o): return self._b("-", o, True)
    def __mul__(self, o): return self._b("*", o)
    def __rmul__(self, o): return self._b("*", o, True)
    def __mod__(self, o): return self._b("%", o)
    def __rmod__(self, o): return self._b("%", o, True)
    def __floordiv__(self, o): return self._b("//", o)
    def __xor__(self, o): return self._b("^", o)
    def __rxor__(self, o): return self._b("^", o, True)
    def __and__(self, o): return self._b("&", o)
    def __or__(self, o): return self._b("|", o)
    def __neg__(self): return Tok("neg", self.key)
    def __abs__(self): return Tok("abs", self.key)

    def __eq__(self, o):
        try:
            if key_of(o) == self.key:
                return True
        except Unsupported:
            return False
        raise Unsupported("comparison of random numbers")

    def __ne__(self, o):
        return not (self == o)

    def __lt__(self, o): raise Unsupported("comparison of random numbers")
    __gt__ = __le__ = __ge__ = __lt__
    def __bool__(self): raise Unsupported("truth value of a random number")
    def __hash__(self): return hash(self.key)
    def __index__(self): raise Unsupported("random number used as an integer")
    __int__ = __float__ = __index__
    def item(self): return self
    def astype(self, *a, **k): return self
    def __deepcopy__(self, m): return self


def keys_differ(a, b):
    """the ingredients of two random requests differ (assumption: pseudo-random seeds derived from different ingredients do not
    collide)"""
    ka, kb = cx.opaque.get("keyexpr", {}), cx.opaque.get("keyexpr", {})
    num = lambda k, t: t[k[1]] if k[0] == "int" else z3.IntVal(k[1]) if k[0] == "c" and isinstance(k[1], int) and not isinstance(k[1], bool) else None
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] in ("int", "c") and b[0] in ("int", "c"):
        x, y = num(a, ka), num(b, kb)
        if x is None or y is None:
            return x is None and y is None and a != b
        return bool(cx.valid(x != y))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return any(keys_differ(x, y) for x, y in zip(a, b))
    return False


def keys_equal(a, b):
    """the same request, with provably equal numbers"""
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] in ("int", "c") and b[0] in ("int", "c"):
        t = cx.opaque.get("keyexpr", {})
        num = lambda k: t.get(k[1]) if k[0] == "int" else z3.IntVal(k[1]) if isinstance(k[1], int) and not isinstance(k[1], bool) else None
        x, y = num(a), num(b)
        return x is not None and y is not None and bool(cx.valid(x == y))
    return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(keys_equal(x, y) for x, y in zip(a, b))


def find(table, key):
    """the entry of a table for a request"""
    if key in table:
        return key
    for k in table:
        if keys_equal(k, key):
            table[key] = table[k]
            return k
    return None


def slots_of(key):
    """a request without its integers, and the integers"""
    t, ps = cx.opaque.get("keyexpr", {}), []

    def go(k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "int":
            ps.append(t[k[1]])
            return "#"
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "c" and isinstance(k[1], int) and not isinstance(k[1], bool):
            ps.append(z3.IntVal(k[1]))
            return "#"
        return tuple(go(x) for x in k) if isinstance(k, tuple) else k
    return go(key), ps


class RandomState:
    parametric = False        # requests of the same form with other integers: one family of arrays with parameters

    def __init__(self, eng):
        self.eng = eng
        self.state = ("ambient", 0)      # state of numpy's global generator
        self.fresh = 0
        self.fams = {}
        self.install()

    def ambient(self):
        """unknown state left behind by other code"""
        self.fresh += 1
        self.state = ("ambient", self.fresh)

    def entropy(self):
        self.fresh += 1
        return ("entropy", self.fresh)

    def family(self, key, shape, sizes):
        """the array a generator returns for this request: a function of key and shape"""
        k = (key, tuple(key_of(s) for s in shape))
        if self.parametric:
            k, ps = slots_of(k)
            if k not in self.fams:
                self.fams[k] = T.Family(f"rnd{len(self.fams)}")
            return A.opaque(self.fams[k].name, list(sizes), params=ps, fam=self.fams[k])
        if find(self.fams, k) is None:
            self.fams[k] = T.Family(f"rnd{len(self.fams)}")
            cx.opaque.setdefault("random", {})[self.fams[k].name] = key
        return A.opaque(self.fams[k].name, list(sizes), fam=self.fams[k])

    def install(self):
        np = self.eng.libs["numpy"]
        rnd = np.random

        def seed(s=None):
            if s is None:
                self.state = self.entropy()
            else:
                self.state = ("seed", key_of(s))

        def draw(what, *args):
            # what a request returns depends on the seed and on every request since then
            k = (self.state, what) + tuple(key_of(x) for x in args)
            self.state = ("after",) + k
            return k

        def uniform(low=0.0, high=1.0, size=None):
            k = draw("uniform", low, high, *([] if size is None else [tuple(size) if not isint(size) else (size,)]))
            if size is None:
                return Tok(*k)
            size = tuple(size) if not isint(size) else (size,)
            return self.family(k, size, size)

        def normal(loc=0.0, scale=1.0, size=None):
            if size is None:
                raise Unsupported("scalar normal")
            size = tuple(size) if not isint(size) else (size,)
            st = self.state
            draw("normal", loc, scale, tuple(size))
            # numbers are drawn one after another in row-major order: the leading size does not matter for the rows both have
            return self.family((st, "normal", key_of(loc), key_of(scale)), size[1:], size)

        def standard_normal(size=None):
            return normal(size=size)

        def randn(*size):
            return normal(size=size)

        def choice(a, size=None, replace=True, p=None):
            if p is not None or not isint(a) or not isint(size):
                raise Unsupported("choice")
            replace = bool(replace)
            k = draw("choice", a, size, replace)
            if cx.decide(Z(size) < 0) or (replace is False and cx.decide(Z(size) > Z(a))):
                raise ValueError("Cannot take a larger sample than population when replace is False")
            if find(self.fams, ("choice", k)) is None:
                self.fams["choice", k] = len(self.fams)
            nm = f"choice{self.fams['choice', k]}"
            cx.opaque.setdefault("bounded", {})[nm] = Z(a)
            if replace is False:
                cx.opaque.setdefault("distinct", []).append(((nm,), Z(size)))
            ax = A.new_axis(size)
            f = z3.Function(nm, z3.IntSort(), z3.IntSort())
            return Arr([ax], kind="i", ip=(("z", Z(a), f(ax[0].z if ax else z3.IntVal(0)), None),))

        rnd.seed, rnd.uniform, rnd.normal, rnd.choice, rnd.standard_normal, rnd.randn = seed, uniform, normal, choice, standard_normal, randn
        rs = self

        class SeedSeq:
            def __init__(self, entropy=None, **k):
                if k:
                    raise Unsupported("SeedSequence options")
                self.key = ("ss", key_of(entropy)) if entropy is not None else rs.entropy()

            def generate_state(self, n, *a):
                if a:
                    raise Unsupported("generate_state dtype")
                return SeedArr(("state", self.key), n)

            def spawn(self, n):
                raise Unsupported("spawn")
        rnd.SeedSequence = SeedSeq

        def random_normal(shape, seed=None):
            """contract of utils.random_normal (see C20): deterministic in (shape, seed) when a seed is given"""
            if isint(shape):
                shape = (shape,)
            shape = tuple(shape)
            k = ("random_normal", key_of(seed)) if seed is not None else ("random_normal", rs.entropy())
            return rs.family(k, shape, shape)
        self.random_normal = random_normal


class SeedArr:
    """n words of SeedSequence(key).generate_state(n); a longer request extends a shorter one"""

    def __init__(self, key, n):
        self.key, self.n = key, n

    def word(self, k):
        """word k, for the contracts"""
        return Tok("word", self.key, key_of(mk(k)))

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of seeds")
        if isinstance(i, SymInt) or isinstance(self.n, SymInt):
            i = Z(i)
            if cx.decide(i < 0):
                i = z3.simplify(i + Z(self.n))
            if not cx.decide(z3.And(i >= 0, i < Z(self.n))):
                raise IndexError("index out of bounds")
            return Tok("word", self.key, key_of(mk(i)))
        i = i.__index__()
        if i < 0:
            i += self.n
        if not 0 <= i < self.n:
            raise IndexError("index out of bounds")
        return Tok("word", self.key, key_of(i))

    def __len__(self):
        return self.n.__index__()

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])
