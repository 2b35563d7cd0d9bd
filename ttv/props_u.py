"""Contracts that hold for any number of operands, modes, ranks and sizes (loops by invariants)."""
import z3
from .scen import scenario


# ------------------------------------------------------------------ C22, any number of summands
def _fold(method):
    def f(e):
        from . import ghost
        from .core import cx, SymInt
        from .rand import keys_equal
        n = e.size("n")
        e.ghost_shape = e.shape(3)
        q, eps = e.size("q"), e.threshold("eps")
        xs = ghost.family(e, n)
        S = e.tensor.TensorSum(xs, e.ghost_shape)
        if method == "exact":
            step = lambda a, x: a.add(x)
        else:
            step = lambda a, x: a.add(x).round(eps, q)
        e.eng.loops = {"round_tt_sum": ghost.Fold(step)}
        try:
            Y = e.gmres.round_tt_sum(S, q, eps, method)
        finally:
            e.eng.loops = {}
        first = xs.at(z3.IntVal(0))
        last = ghost.Ghost(e, "fold", ("c", "round_tt_sum"), first.key, ghost.index(n.z - 1))
        if cx.decide(n.z == 1):
            first, last = first.round(eps, q), last.round(eps, q)  # a fold over nothing is its start
            e.true("a single summand is rounded", keys_equal(Y.key, first.key) or keys_equal(Y.key, last.key) or Y.key[0] == "fold" and keys_equal(Y.key[2], first.key))
            return
        want = last.round(eps, q) if method == "exact" else last
        e.true("the direct sum of all summands is rounded" if method == "exact" else "partial sums are rounded in turn", keys_equal(Y.key, want.key))
    return f


for m in ("exact", "pairwise"):
    scenario("C22", f"{m}, any number of summands", fns=["round_tt_sum"], unbounded=True, concrete=False)(_fold(m))
