"""Tensors known only by how they were made: for loops over an unknown number of operands."""
import z3
from .core import cx, Z, Unsupported, Refuted
from .rand import key_of, keys_equal
from .seqs import Seq, Gen


class Ghost:
    """term(head, args...); the methods build terms"""
    __array_priority__ = 4000

    def __init__(self, e, *key):
        self._e, self.key = e, key

    def _arg(self, x):
        return ("g",) + x.key if isinstance(x, Ghost) else key_of(x)

    def add(self, o):
        if not isinstance(o, Ghost):
            raise Unsupported("add")
        return Ghost(self._e, "add", self.key, o.key)

    def round(self, eps=None, max_rank=None, orthogonalized=False):
        if orthogonalized is not False:
            raise Unsupported("round of an orthogonalized tensor")
        return Ghost(self._e, "round", self.key, key_of(eps), key_of(max_rank))

    def __getattr__(self, n):
        if n == "shape":
            return self._e.ghost_shape
        raise Unsupported(f"{n} of a tensor that is known only by its construction")


def index(z):
    return key_of(__import__("ttv.core", fromlist=["mk"]).mk(Z(z)))


def family(e, n, name="x"):
    """list of n operands"""
    return Seq([Gen(z3.IntVal(0), Z(n), lambda k: Ghost(e, name, index(k)))])


class Fold:
    """loop contract: the only ghost variable the loop assigns is a left fold over the elements"""

    def __init__(self, step):
        self.step = step
        self.base = None

    def _var(self, loop, locs):
        v = [a for a in loop.assigned if isinstance(locs.get(a), Ghost) and a not in loop.targets]
        if len(v) != 1:
            raise Unsupported("loop does not fold its operands into one variable")
        return v[0]

    def enter(self, loop, locs):
        loop.acc = self._var(loop, locs)
        loop.base = locs[loop.acc]

    def state(self, loop, k):
        self.last = (loop, k)
        return {loop.acc: Ghost(loop.base._e, "fold", ("c", loop.qual), loop.base.key, index(k))}

    def check(self, loop, locs, k):
        acc = Ghost(loop.base._e, "fold", ("c", loop.qual), loop.base.key, index(loop.k))
        want = self.step(acc, loop.seq.at(loop.k))
        got = locs.get(loop.acc)
        if not isinstance(got, Ghost) or not keys_equal(got.key, want.key):
            cx.opaque["loose"] = True
            raise Refuted("every summand is added in turn", f"{getattr(got, 'key', got)} instead of {want.key}")
        cx.stats.add("every summand is added in turn", "z3")
