"""Contract of rank trimming for any order d: the result is the largest tuple below the given ranks in which neighbouring ranks differ at
most by a factor of the mode size between them.

Ranks are numbered 0..d with r(0) = r(d) = 1.  An admissible rank tuple S is any S with S(0) = S(d) = 1, 1 <= S(k) <= r(k),
S(k+1) <= S(k) n(k) and S(k) <= S(k+1) n(k).  The loops keep every admissible tuple below the current ranks and the current ranks below r."""
from __future__ import annotations
import z3
from .anyord import S as Sx, Order, Rank, generic, Inv
from .core import cx, Z, mk, SymBool, Refuted, Unsupported, prod_fn, isint
from .loader import Poison
from .seqs import Seq, Gen, mkseq, of as seq_of


def mono(a, b, c):
    """arithmetic: a <= b and c >= 0 give a c <= b c"""
    cx.solver.add(z3.Implies(z3.And(a <= b, c >= 0), a * c <= b * c))


class Trim:
    def __init__(self, e, o):
        self.e, self.o, self.d = e, o, o.d
        self.r = Rank(o, "r")
        self.S = z3.Function("S!", z3.IntSort(), z3.IntSort())
        self.n = o.n
        facts = cx.opaque.setdefault("facts", {})
        cx.opaque.setdefault("positive", set()).add("S!")
        facts["S!"] = lambda k, x: self.admissible(k)

    def admissible(self, k):
        """facts about S at k"""
        S, n, d = self.S, self.n, self.d
        return z3.And(z3.Implies(z3.Or(k == 0, k == d), S(k) == 1), z3.Implies(z3.And(k >= 0, k <= d), S(k) >= 1),
                      z3.Implies(z3.And(k > 0, k < d), S(k) <= self.r.f(k)))

    def pair(self, f, k):
        """neighbours k, k+1"""
        return z3.And(f(k + 1) <= f(k) * self.n(k), f(k) <= f(k + 1) * self.n(k))

    def assume_pair(self, k):
        k = Sx(k)
        cx.assume(z3.Implies(z3.And(k >= 0, k < self.d), self.pair(self.S, k)))

    def r0(self, k):
        return z3.If(z3.Or(k == 0, k == self.d), z3.IntVal(1), self.r.f(k))

    def ok(self, z, k):
        """rank z at k between S and r"""
        return z3.And(z >= 1, z >= self.S(k), z <= self.r0(k))

    def new(self, more=None):
        """fresh current ranks R: S <= R <= r"""
        nm = cx.fresh("R")
        f = z3.Function(nm, z3.IntSort(), z3.IntSort())

        def fact(k, x):
            c = z3.Implies(z3.And(k >= 0, k <= self.d), self.ok(x, k))
            return z3.And(c, more(k, x)) if more else c
        cx.opaque.setdefault("facts", {})[nm] = fact
        cx.opaque["positive"].add(nm)
        return f

    def lemma(self, e):
        """S(k) is at most the product of the mode sizes on either side"""
        P = prod_fn(self.o.base)[0]
        S, n, d = self.S, self.n, self.d
        if cx.choose(2, "lemma") == 0:
            k = generic(0, d)
            c = cx.choose(2, "side")
            self.assume_pair(k)
            if c == 0:      # from the left
                cx.assume(S(k) <= P(0, k))
                mono(S(k), P(0, k), n(k))
                e.true("lemma: an admissible rank is at most the product of the modes on its left (base)", SymBool(S(z3.IntVal(0)) <= P(z3.IntVal(0), z3.IntVal(0))))
                e.true("lemma: an admissible rank is at most the product of the modes on its left", SymBool(S(Sx(k + 1)) <= P(0, Sx(k + 1))))
            else:
                cx.assume(S(Sx(k + 1)) <= P(Sx(k + 1), d))
                cx.assume(P(k, d) == n(k) * P(Sx(k + 1), d))      # the definition of the product
                mono(S(Sx(k + 1)), P(Sx(k + 1), d), n(k))
                e.true("lemma: an admissible rank is at most the product of the modes on its right (base)", SymBool(S(d) <= P(d, d)))
                e.true("lemma: an admissible rank is at most the product of the modes on its right", SymBool(S(k) <= P(k, d)))
            from .core import PathDone
            raise PathDone()

    def bound(self, k):
        P = prod_fn(self.o.base)[0]
        k = Sx(k)
        cx.assume(z3.And(self.S(k) <= P(0, k), self.S(k) <= P(k, self.d)))


def kinds(loop, locs, want):
    """the variables of the loop, by their kind"""
    L = {}
    for x in sorted(set(loop.carried) | set(loop.mutated) | set(loop.assigned)):
        v = locs.get(x)
        if x not in locs or type(v) is Poison or (x not in loop.carried and x not in loop.mutated and not isinstance(v, (bool, SymBool))):
            continue
        k = "R" if isinstance(v, (list, Seq)) else "changed" if isinstance(v, (bool, SymBool)) else None
        if k is None or k in L:
            raise Unsupported(f"unexpected variable {x} of the loop")
        L[k] = x
    if set(L) != set(want):
        raise Unsupported(f"variables of the loop: {L}")
    loop.L = L


class Caps:
    """first loop: the ranks are cut down to the products of the modes on either side.  List element k is rank k+1."""
    name = "trimming to the products of the modes"
    owns = True

    def __init__(self, t):
        self.t = t

    def enter(self, loop, locs):
        t = self.t
        kinds(loop, locs, {"R"})
        s = seq_of(locs[loop.L["R"]])
        t.e.ieq("one rank per bond", mk(s.zlen()), mk(Sx(t.d - 1)))
        t.e.ieq("one step per bond", mk(loop.n), mk(Sx(t.d - 1)))
        k = generic(0, t.d - 1)
        t.e.ieq("the given ranks", s.at(k), mk(t.r.f(Sx(k + 1))))

    def state(self, loop, i):
        t = self.t
        f = t.new(lambda k, x: z3.Implies(z3.And(k > i, k < t.d), x == t.r.f(k)))
        return {loop.L["R"]: mkseq([Gen(z3.IntVal(0), Sx(t.d - 1), lambda j: mk(f(Sx(j + 1))))], "list")}

    def check(self, loop, locs, i):
        t = self.t
        s = seq_of(locs[loop.L["R"]])
        t.e.ieq("one rank per bond", mk(s.zlen()), mk(Sx(t.d - 1)))
        k = generic(0, t.d - 1)
        t.bound(k + 1)
        z = Z(s.at(k))
        t.e.true("no admissible rank is cut", SymBool(t.ok(z, Sx(k + 1))))
        t.e.true("later ranks are not changed", SymBool(z3.Implies(k >= i, z == t.r.f(Sx(k + 1)))))


class Passes:
    """while loop: if the last pass changed nothing, neighbours are admissible"""
    name = "trimming passes"
    owns = True

    def __init__(self, t):
        self.t = t

    def holds(self, loop, locs, first):
        t = self.t
        s, c = seq_of(locs[loop.L["R"]]), locs[loop.L["changed"]]
        t.e.ieq("ranks 0 to d", mk(s.zlen()), mk(Sx(t.d + 1)))
        k = generic(0, t.d + 1)
        t.e.true("ranks between the admissible and the given ones", SymBool(t.ok(Z(s.at(k)), k)))
        if not c:
            k = generic(0, t.d)
            if not first:
                t.known(k)
            t.e.true("a pass that changes nothing leaves admissible neighbours", SymBool(t.pair(lambda j: Z(s.at(Sx(j))), k)))

    def enter(self, loop, locs):
        kinds(loop, locs, {"R", "changed"})
        self.holds(loop, locs, True)

    def state(self, loop, _):
        t = self.t
        c = z3.Bool(cx.fresh("changed"))
        f = t.new()
        t.start = f
        t.known = lambda k: cx.assume(z3.Implies(z3.And(z3.Not(c), k >= 0, k < t.d), t.pair(f, k)))
        return {loop.L["R"]: mkseq([Gen(z3.IntVal(0), Sx(t.d + 1), lambda j: mk(f(j)))], "list"), loop.L["changed"]: SymBool(c)}

    def check(self, loop, locs, _):
        # (termination: the pass has raised no rank, and lowered one if it is followed by another; checked with the inner loop)
        self.holds(loop, locs, False)


class Pass:
    """inner loop: i modes done.  No rank is raised; if nothing changed the ranks are those at the start of the pass and neighbours up to
    i are admissible; if something changed, a rank (that of index w) is lower than at the start."""
    name = "trimming pass"
    owns = True

    def __init__(self, t):
        self.t = t

    def enter(self, loop, locs):
        t = self.t
        kinds(loop, locs, {"R", "changed"})
        s = seq_of(locs[loop.L["R"]])
        t.e.ieq("one step per mode", mk(loop.n), mk(t.d))
        k = generic(0, t.d + 1)
        t.e.ieq("the pass starts with the ranks of the last one", s.at(k), mk(t.start(k)))
        t.e.true("nothing changed yet", not locs[loop.L["changed"]])

    def state(self, loop, i):
        t = self.t
        c, w = z3.Bool(cx.fresh("changed")), z3.Int(cx.fresh("w"))
        st = t.start
        self.c, self.w, self.i = c, w, i
        f = t.new(lambda k, x: z3.Implies(z3.And(k >= 0, k <= t.d), z3.And(x <= st(k), z3.Implies(z3.Not(c), x == st(k)))))
        cx.assume(z3.And(w >= 0, w <= t.d, z3.Implies(c, f(w) < st(w))))
        t.f = f
        t.known = lambda k: cx.assume(z3.Implies(z3.And(z3.Not(c), k >= 0, k < i), t.pair(f, k)))
        return {loop.L["R"]: mkseq([Gen(z3.IntVal(0), Sx(t.d + 1), lambda j: mk(f(j)))], "list"), loop.L["changed"]: SymBool(c)}

    def check(self, loop, locs, i):
        t = self.t
        j = Sx(i - 1)        # the mode of this step
        s, c = seq_of(locs[loop.L["R"]]), locs[loop.L["changed"]]
        t.e.ieq("ranks 0 to d", mk(s.zlen()), mk(Sx(t.d + 1)))
        t.assume_pair(j)
        S, R, n = t.S, t.f, t.n(j)
        mono(S(j), R(j), n)
        mono(S(Sx(j + 1)), R(Sx(j + 1)), n)
        mono(S(Sx(j + 1)), Z(s.at(Sx(j + 1))), n)
        mono(S(j), Z(s.at(j)), n)
        k = generic(0, t.d + 1)
        z = Z(s.at(k))
        t.e.true("ranks between the admissible and the given ones", SymBool(t.ok(z, k)))
        t.e.true("no rank is raised", SymBool(z <= t.start(k)))
        if not c:
            t.e.ieq("no change", mk(z), mk(t.start(k)))
            k = generic(0, i)
            t.known(k)
            t.e.true("neighbours that the pass has seen are admissible", SymBool(t.pair(lambda q: Z(s.at(Sx(q))), k)))
        else:
            at = lambda q: Z(s.at(q))
            t.e.true("a change lowers a rank", SymBool(z3.Or(at(self.w) < t.start(self.w), at(j) < t.start(j), at(Sx(j + 1)) < t.start(Sx(j + 1)))))


def contract(kind):
    def f(e):
        o = Order(e, small=False)      # orders 1 and 2: contracts of fixed order
        t = Trim(e, o)
        t.lemma(e)
        d = o.d
        if kind == "int":
            q = e.size("q")
            cx.opaque["facts"]["r"] = lambda k, x: x == Z(q)
            arg = q
        else:
            arg = mkseq([Gen(z3.IntVal(1), d, lambda k: mk(t.r.f(k)))], kind)
        U = e.utils
        e.eng.loops = {("trim_ranks", 0): Caps(t), ("trim_ranks", "while", 0): Passes(t), ("trim_ranks", 1): Pass(t)}
        plain = seq_of(U.process_tt_rank(arg, o.shape, False))
        e.ieq("untrimmed ranks", mk(plain.zlen()), mk(Sx(d - 1)))
        k = generic(1, d)
        e.ieq("untrimmed rank", plain.at(Sx(k - 1)), mk(t.r.f(k)))
        res = seq_of(U.process_tt_rank(arg, o.shape, True))
        e.ieq("number of ranks", mk(res.zlen()), mk(Sx(d - 1)))
        e.true("a tuple", res.kind == "tuple" if isinstance(res, Seq) else True)
        k = generic(1, d)
        e.true("rank between every admissible rank and the given one", SymBool(t.ok(Z(res.at(Sx(k - 1))), k)))
        k = generic(0, d)
        t.known(k)
        at = lambda j: z3.IntVal(1) if cx.decide(z3.Or(j == 0, j == d)) else Z(res.at(Sx(j - 1)))
        e.true("neighbouring ranks are admissible", SymBool(t.pair(lambda j: at(Sx(j)), k)))
    return f
