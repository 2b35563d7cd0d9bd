"""Loops over a symbolic range without a stated invariant.

Rule (parallel loop): the body is executed for one generic iteration k, with every array it writes replaced by an unknown W
(the array as the earlier iterations left it).  If the array afterwards is
        W[idx]*[h(idx,k)] + g(idx,k)          with g free of W
then after all iterations it is
   accumulation (h = true):       W0[idx] + sum_k g(idx,k)
   disjoint writes (not h(.,k) and not h(.,k') exclude each other for k != k', and g is zero where h holds):
                                  W0[idx]*[forall k. h(idx,k)] + sum_k g(idx,k)
   overwriting (h = false):       g(idx,n-1)
Locals that the body rebinds are unknown at its start and unusable after the loop unless they accumulate.  Anything else is
reported as unsupported.
"""
from __future__ import annotations
import z3
from . import arr as A, term as T
from .arr import Arr, SymScalar
from .core import cx, Z, mk, Unsupported
from .env import walk, same_walk
from .seqs import Seq
from .term import Expr, Term, Atom, Family


def counters():
    return (len(cx.rules), len(cx.interned), len(cx.entrywise), len(cx.linspaces), len(cx.events), len(cx.alloc_log), len(cx.notes),
            tuple((k, len(v)) for k, v in sorted(cx.opaque.items()) if isinstance(v, list) and k != "masks"))


def mentions(z, name):
    return name in T.zconsts(z)


class MapLoop:
    def __init__(self, loop, seq, locs, assigned, targets):
        self.loop, self.seq, self.locs = loop, seq, locs
        self.assigned = [a for a in assigned if a not in targets]
        self.targets = targets
        self.n = seq.zlen()
        self.phase = 0
        self.empty = not cx.decide(self.n > 0)

    def items(self):
        if self.empty:
            return
        self.v = T.Var(T.Fac(size=self.n))
        self.k = self.v.z
        self.born = A.Store().id
        self.scope = Generic(self.v)
        self.scope.__enter__()
        self.cnt = counters()
        pre = {a: v for a, v in self.locs.items() if a not in self.assigned and a not in self.targets and not a.startswith(("_vl", "_vw")) and type(v).__name__ != "Poison"}
        self.frame = (pre, _frame(pre))
        self.w0 = len(cx.wlog)
        self.phase = 1
        yield self.seq.at(self.k)
        self.phase = 2
        yield self.seq.at(self.k)

    def _written(self, start):
        out = []
        for a, axes, body in cx.wlog[start:]:
            if a.store.id < self.born and not any(a is x[0] for x in out):
                out.append((a, axes, body))
        return out

    def _check(self):
        if counters() != self.cnt:
            raise Unsupported("loop body uses matrix factorisations, random numbers or real decisions")
        if same_walk(self.frame[1], _frame(self.frame[0]), lambda a, b: a is b):
            raise Unsupported("loop body changes a container")

    def top(self, locs):
        if self.phase != 2:
            return
        self._check()
        self.arrs = []
        for a, axes, body in self._written(self.w0):
            if a.kind != "f":
                raise Unsupported("loop writes an integer array")
            a.axes, a.body = axes, body
            a.axes = a.fresh().axes if False else axes
            fam = Family(cx.fresh("W"))
            b = Arr(axes, body).fresh()
            self.arrs.append((a, b, fam))
            a.axes = list(b.axes)
            a.body = Expr([Term(1, at=(Atom(fam, (), [A.pcs(x) for x in self._plain(b.axes)]),))])
        self.env = {}
        self.acc = {}
        for x in self.assigned:
            old, new = self.locs.get(x), locs.get(x)
            if x in self.locs and isinstance(old, (Arr, SymScalar, int, float)) and not isinstance(old, bool) and old is not new:
                b = A.as_arr(float(old) if isinstance(old, int) else old)
                if b.kind == "f":
                    b = b.fresh()
                    fam = Family(cx.fresh("W"))
                    if not b.axes and isinstance(new, Arr) and new.axes:
                        pass
                    self.acc[x] = (b, fam)
                    w = Arr(list(b.axes), Expr([Term(1, at=(Atom(fam, (), [A.pcs(y) for y in self._plain(b.axes)]),))])).fresh()
                    self.env[x] = w if isinstance(old, Arr) else SymScalar(w.body)
                    continue
            if x in self.locs and old is new:
                continue        # not rebound: changed in place or not at all
            self.env[x] = self._poison(x)
        self.loop.env = self.env
        self.w1 = len(cx.wlog)

    def _poison(self, x):
        from .loader import Poison
        return Poison(x)

    def _plain(self, axes):
        if any(isinstance(a, A.Star) for a in axes):
            raise Unsupported("loop writes an array of symbolic order")
        return axes

    def after(self, locs):
        if self.empty or self.phase == 0:
            self.loop.env = {}
            return
        self._check()
        new = [a for a, _, _ in self._written(self.w1)]
        if any(not any(a is b for b, _, _ in self.arrs) for a in new):
            raise Unsupported("loop body writes other arrays in a later iteration")
        # the arrays afterwards, computed while 0 <= k < n is known
        fin = []
        fams = [f for _, _, f in self.arrs] + [f for _, f in self.acc.values()]
        for a, b, fam in self.arrs:
            fin.append((a, a.axes, self._extract(a.axes, a.body, b, fam, fams)))
        vals = {}
        for x, (b, fam) in self.acc.items():
            r = locs.get(x)
            if isinstance(r, (int, float, SymScalar, Arr)):
                r = A.as_arr(float(r) if isinstance(r, int) else r)
                try:
                    if r.kind == "f" and len(r.axes) == len(b.axes):
                        r = r.fresh()
                        vals[x] = (r.axes, self._extract(r.axes, r.body, b, fam, fams))
                except Unsupported:
                    pass
        self.scope.__exit__(None, None, None)
        for a, axes, body in fin:
            a.axes, a.body = axes, body
        env = {x: self._poison(x) for x in self.assigned + list(self.targets) if not (x in self.locs and self.locs[x] is locs.get(x))}
        for x, (axes, body) in vals.items():
            env[x] = Arr(axes, body) if axes else SymScalar(body)
        self.loop.env = env

    def _extract(self, axes, body, b, fam, fams):
        """b: the array before the loop (own binders)"""
        body = T.normalize(body)
        slots = [A.pcs(x) for x in self._plain(axes)]
        wt, rest = [], []
        for t in body.t:
            if any(a.fam in fams for a in t.at):
                wt.append(t)
            else:
                rest.append(t)
        if self._mentions_flt(rest):
            raise Unsupported("loop writes values of a filtered axis")
        kname = self.k.decl().name()
        old = b.at(slots)
        if len(wt) > 1:
            raise Unsupported("loop iterations depend on each other")
        if not wt:
            return T.zsub(Expr(rest), [(self.k, z3.simplify(self.n - 1))])
        t = wt[0]
        if t.c != 1 or t.sc or t.bv or len(t.at) != 1 or t.at[0].fam is not fam or \
                not all(len(p) == len(q) and T.slots_equal(p, q) for p, q in zip(t.at[0].slots, slots)):
            raise Unsupported("loop iterations depend on each other")
        if any(isinstance(g, tuple) for g in t.g):
            raise Unsupported("loop guard")
        total = T.sum_over(Expr(rest), [self.v])
        if not t.g:
            return T.add(old, total)
        h = z3.And(*t.g)
        av = [v for a in axes for v in a]
        k2 = z3.Int(cx.fresh("k"))
        inr = z3.And(k2 >= 0, k2 < self.n, k2 != self.k)
        h2 = z3.substitute(h, (self.k, k2))
        if not T.valid_in(av, [inr, z3.Not(h)], h2):
            raise Unsupported("loop iterations write overlapping parts")
        for r in rest:
            if not T.valid_in(av + list(r.bv), [g for g in r.g if not isinstance(g, tuple)], z3.Not(h)):
                raise Unsupported("loop writes outside its own part")
        if not old.t:
            return total
        # where no iteration writes
        neg = z3.simplify(z3.Not(h))
        for c in (neg.children() if z3.is_and(neg) else [neg]):
            if not z3.is_eq(c) or c.arg(0).sort() != z3.IntSort():
                continue
            sol = T.solve_linear(self.k, c.arg(0), c.arg(1))
            if sol is not None and kname not in T.zconsts(sol):
                one = z3.substitute(z3.And(neg, sol >= 0, sol < self.n), (self.k, sol))
                return T.add(T.guard(old, [z3.simplify(z3.Not(one))]), total)
        raise Unsupported("parts of the array not written by the loop")

    def _mentions_flt(self, rest):
        for t in rest:
            for v in T.all_vars(t) - set(t.bv):
                if v.fac.flt:
                    return True
        return False


def _frame(pre):
    return tuple((k, walk(v, set())) for k, v in sorted(pre.items()))


def append_loop(loop, seq, locs, assigned, targets, body, outs):
    """a loop that appends one element per iteration to each of its lists, computed from the element of the sequence alone: a map over the sequence"""
    from .loader import Poison
    from .seqs import mapseq, mkseq, of, frozen
    body = frozen(body)
    for a in outs:
        if not (isinstance(locs.get(a), list) or isinstance(locs.get(a), Seq) and locs[a].kind == "list"):
            raise Unsupported(f"loop {loop.ordinal} of {loop.qual} appends to {a}")
        if any(locs[a] is v for b, v in locs.items() if a != b):
            raise Unsupported("the changed object has two names")
    def f(x):
        born, w0, cnt = A.Store().id, len(cx.wlog), counters()
        r = body(x)
        if any(a.store.id < born for a, _, _ in cx.wlog[w0:]):
            raise Unsupported(f"the body of loop {loop.ordinal} of {loop.qual} writes an array")
        if counters() != cnt:
            raise Unsupported("loop body uses matrix factorisations, random numbers or real decisions")
        return r
    s = mapseq(f, seq, "list")
    env = {a: Poison(a) for a in assigned if a not in outs}
    env.update({a: Poison(a) for a in targets})
    parts = of(s).parts
    for i, a in enumerate(outs):
        ps = [type(p)(p.lo, p.hi, (lambda k, g=p.f: g(k)[i]), p.rev) if not isinstance(p, tuple) else ("e", p[1][i]) for p in parts]
        env[a] = mkseq(list(of(locs[a]).parts) + ps, "list")
    return env


class Generic:
    """scope in which one index is known to lie in its range"""

    def __init__(self, v):
        self.v = v

    def __enter__(self):
        self.pc0, self.eq0, self.lem0 = len(cx.pc), dict(cx.eqcache), set(cx.lemmas_done)
        self.masks0 = len(cx.opaque.get("masks", []))
        cx.solver.push()
        cx.assume(T.in_range(self.v))
        return self.v

    def __exit__(self, et, ev, tb):
        if et is not None:
            return False
        nm = self.v.z.decl().name()
        keep = cx.pc[self.pc0 + 1:]
        if any(mentions(c, nm) for c in keep):
            raise Unsupported(f"different paths for different elements: {str(keep)[:100]}")
        cx.solver.pop()
        del cx.pc[self.pc0:]
        cx.eqcache, cx.lemmas_done = self.eq0, self.lem0
        if "masks" in cx.opaque:
            del cx.opaque["masks"][self.masks0:]
        for c in keep:
            cx.assume(c)


class SymDict:
    """{key(m): value(m) for m in range(n)} with keys proved distinct"""

    def __init__(self, f, seq):
        n = seq.zlen()
        self.v = T.Var(T.Fac(size=n))
        with Generic(self.v):
            k, val = f(seq.at(self.v.z))
        k = A.as_arr(k)
        if k.kind != "i" or k.allvars():
            raise Unsupported("dictionary keys that are not integers")
        self.key, self.val = k.ip, SymScalar.of(A.scalar_of(val))
        if not self._distinct(n):
            raise Unsupported(f"dictionary keys not provably distinct {self.key} {cx.opaque.get('distinct')}")

    def _distinct(self, n):
        for names, m in cx.opaque.get("distinct", []):
            if not cx.int_eq(n, m) or len(self.key) != len(names):
                continue
            if all(z3.is_app(p[2]) and p[2].num_args() == 1 and p[2].decl().name() == nm and p[2].arg(0).eq(self.v.z)
                   for p, nm in zip(self.key, names)):
                return True
        return False

    def _sel(self, x):
        x = A.as_arr(x)
        if x.kind != "i" or x.allvars():
            raise Unsupported("dictionary lookup with a non-integer")
        w = T.Var(self.v.fac)
        if len(self.key) != len(x.ip):
            g = [T.flat_index(self.key) == T.flat_index(x.ip)]
        else:
            g = []
            for p, q in zip(self.key, x.ip):
                if p[0] != "z" or q[0] != "z" or (p[1] is not None and q[1] is not None and not cx.int_eq(p[1], q[1])):
                    raise Unsupported("dictionary lookup with differently shaped indices")
                g.append(p[2] == q[2])
        e = T.subst(T.guard(self.val.e, g), {self.v: (w.piece(),)})
        one = T.subst(T.guard(T.const(1), g), {self.v: (w.piece(),)})
        return T.sum_over(e, [w]), T.sum_over(one, [w])

    def get(self, x, default=None):
        if default is None:
            raise Unsupported("dictionary lookup without a default")
        e, one = self._sel(x)
        d = SymScalar.of(default)
        if not T.normalize(d.e).t:
            return SymScalar(e)
        return SymScalar(T.add(e, T.add(d.e, T.scale(T.mul(d.e, one), -1))))

    def __getattr__(self, n):
        raise Unsupported(f"dictionary of symbolic size .{n}")

    def __getitem__(self, k):
        raise Unsupported("dictionary lookup that may fail")
    __contains__ = __len__ = __iter__ = __getitem__
