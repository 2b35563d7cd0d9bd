"""Tensor terms: finite sums of  coef * scalars * [guards] * prod(atoms)  summed over bound indices.

Every array value is a lambda over index variables whose body is such an expression, so equality of two
arrays is equality of expressions at a generic index.  Indices range over symbolic sizes.  An interval
variable ranges over the multi-indices of a whole range [lo,hi) of tensor modes.
"""
from __future__ import annotations
import itertools
from fractions import Fraction
import z3
from .core import cx, Z, mk, prod_term, prod_fn, Unsupported, SymInt, same_product

ids = itertools.count()


def S(z):
    return z3.simplify(Z(z))


class Fac:
    """Size of an index variable.  iv=(base,lo,hi,rev): multi-index over modes lo..hi of shape sequence base;
    mode=(base,k): the single mode k; flt=(size, pred): the subset of range(size) where pred holds."""
    __slots__ = ("size", "mode", "iv", "flt")

    def __init__(self, size=None, mode=None, iv=None, flt=None):
        self.mode, self.iv, self.flt = mode, iv, flt
        if iv is not None:
            b, lo, hi, rev = iv
            self.iv = (b, S(lo), S(hi), rev)
            self.size = prod_term(b, lo, hi)
        elif mode is not None and size is None:
            self.mode = (mode[0], S(mode[1]))
            self.size = prod_fn(mode[0])[1](S(mode[1]))
        else:
            self.size = S(size)

    def zsub(self, pairs):
        if self.iv:
            b, lo, hi, rev = self.iv
            return Fac(iv=(b, z3.substitute(lo, *pairs), z3.substitute(hi, *pairs), rev))
        if self.flt:
            n, p = self.flt
            return Fac(size=z3.substitute(self.size, *pairs),
                       flt=(z3.substitute(n, *pairs), lambda i, p=p: z3.substitute(p(i), *pairs)))
        m = (self.mode[0], z3.substitute(self.mode[1], *pairs)) if self.mode else None
        return Fac(size=z3.substitute(self.size, *pairs), mode=m)

    def __repr__(self):
        return f"{self.iv or self.size}"


class Var:
    __slots__ = ("id", "fac", "z")

    def __init__(self, fac):
        self.id = next(ids)
        self.fac = fac
        self.z = None if fac.iv else z3.Int(f"i#{self.id}")

    def __repr__(self):
        return f"i{self.id}:{self.fac}"

    def piece(self):
        return ("v", self) if self.fac.iv else ("z", self.fac.size, self.z, self.fac.mode)


def fresh_like(v):
    return Var(v.fac)


def known_single(fac):
    """If the interval is provably a single mode return a plain factor; empty -> None; else itself."""
    if fac.iv:
        b, lo, hi, rev = fac.iv
        d = z3.simplify(hi - lo)
        if z3.is_int_value(d):
            n = d.as_long()
            if n <= 0:
                return None
            if n == 1:
                return Fac(mode=(b, lo))
        elif cx.int_eq(hi, lo):
            return None
        elif cx.int_eq(hi, lo + 1):
            return Fac(mode=(b, lo))
        return fac
    return fac


# pieces: ("z", size, zterm, mode|None) | ("v", Var interval) | ("g", base, lo, hi, rev, m, zterm)
def piece_size(p):
    if p[0] == "z":
        return p[1]
    if p[0] == "v":
        return p[1].fac.size
    return prod_term(p[1], p[2], p[3])


def piece_zsub(p, pairs):
    if p[0] == "z":
        mode = (p[3][0], z3.simplify(z3.substitute(p[3][1], *pairs))) if p[3] else None
        return ("z", None if p[1] is None else z3.simplify(z3.substitute(p[1], *pairs)), z3.simplify(z3.substitute(p[2], *pairs)), mode)
    if p[0] == "v":
        return p
    return ("g", p[1], z3.simplify(z3.substitute(p[2], *pairs)), z3.simplify(z3.substitute(p[3], *pairs)), p[4], p[5],
            z3.substitute(p[6], *pairs))


class Atom:
    __slots__ = ("fam", "params", "slots")

    def __init__(self, fam, params, slots):
        self.fam = fam
        self.params = tuple(params)
        self.slots = tuple(tuple(s) for s in slots)

    def __repr__(self):
        def pp(p):
            return str(p[2]) if p[0] == "z" else (f"I{p[1].id}{p[1].fac.iv}" if p[0] == "v" else f"g({p[2]}..{p[3]}:{p[6]})")
        ps = f"({','.join(str(p) for p in self.params)})" if self.params else ""
        return f"{self.fam.name}{ps}[{' | '.join(','.join(pp(p) for p in s) for s in self.slots)}]"


class Family:
    """A family of (possibly recursively defined) arrays  fam(params)[slots]."""

    def __init__(self, name, unfold=None, rank=None, payload=None, meta=None):
        self.name = name
        self.unfold = unfold      # (params, slots) -> Expr | None
        self.payload = payload    # scalar functions carry an Expr
        self.meta = meta or {}

    def __repr__(self):
        return self.name


class Term:
    __slots__ = ("c", "sc", "bv", "at", "g")

    def __init__(self, c, sc=(), bv=(), at=(), g=()):
        self.c = c if isinstance(c, Fraction) else Fraction(c)
        self.sc = sc
        self.bv = tuple(bv)
        self.at = tuple(at)
        self.g = tuple(g)

    def __repr__(self):
        s = f"{self.c}" if self.c != 1 or not (self.at or self.sc) else ""
        s += "".join(f"·{n}^{p}" if p != 1 else f"·{n}" for n, p in self.sc)
        if self.bv:
            s += f" Σ({','.join(map(repr, self.bv))})"
        s += "".join(f" [{g}]" for g in self.g)
        return s + " " + " ".join(map(repr, self.at))


class Expr:
    __slots__ = ("t",)

    def __init__(self, t=()):
        self.t = list(t)

    def __repr__(self):
        return " + ".join(map(repr, self.t)) if self.t else "0"


def const(c):
    c = Fraction(c)
    return Expr([Term(c)]) if c != 0 else Expr()


def scal(name, p=1):
    return Expr([Term(1, ((name, p),))])


def add(a, b):
    return Expr(a.t + b.t)


def scale(a, c):
    c = Fraction(c)
    if c == 0:
        return Expr()
    return Expr([Term(t.c * c, t.sc, t.bv, t.at, t.g) for t in a.t])


def mul_sc(s1, s2):
    d = dict(s1)
    for n, p in s2:
        d[n] = d.get(n, 0) + p
    return tuple(sorted(((n, p) for n, p in d.items() if p != 0), key=lambda x: str(x[0])))


def rename_bound(t):
    if not t.bv:
        return t
    return subst_term(Term(t.c, t.sc, (), t.at, t.g), {v: (nv.piece(),) for v, nv in _fresh(t.bv)}, extra_bv=None,
                      bv=t.bv)


def _fresh(bvs):
    return [(v, fresh_like(v)) for v in bvs]


def subst_term(t, m, extra_bv=None, bv=None):
    """Substitute variables by piece tuples.  If bv given, those are bound variables being renamed by m."""
    pairs = []
    for v, ps in m.items():
        if v.z is not None:
            pairs.append((v.z, flat_index(ps)))
    at = [subst_atom(a, m, pairs) for a in t.at]
    g = tuple(subst_guard(x, m, pairs) for x in t.g)
    nb = t.bv
    if bv is not None:
        nb = []
        for v in bv:
            for p in m[v]:
                nb.append(p[1] if p[0] == "v" else zvar(p))
        nb = tuple(nb)
    r = Term(t.c, t.sc, nb, at, g)
    if pairs and nb:
        # the range of a bound variable may mention a substituted index
        names = {x.decl().name() for x, y in pairs if z3.is_const(x) and not x.eq(y)}
        dep = [v for v in nb if v.z is not None and zconsts(v.fac.size) & names]
        if dep:
            r = subst_term(r, {v: ((Var(v.fac.zsub(pairs)) if v in dep else v).piece(),) for v in nb}, bv=nb)
    return r


zreg = {}


def zvar(p):
    return zreg[p[2].decl().name()]


def flat_index(ps):
    """Row-major flat index of a composite index."""
    r = None
    for p in ps:
        if p[0] != "z":
            return z3.Int(f"?flat{id(p)}")
        r = p[2] if r is None else r * p[1] + p[2]
    return z3.IntVal(0) if r is None else z3.simplify(r)


def subst_atom(a, m, pairs):
    slots = []
    for s in a.slots:
        ns = []
        for p in s:
            if p[0] == "v":
                if p[1] in m:
                    ns.extend(m[p[1]])
                else:
                    ns.append(p)
            elif p[0] == "z":
                hit = None
                if z3.is_const(p[2]) and p[2].decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    for v, ps in m.items():
                        if v.z is not None and v.z.eq(p[2]):
                            hit = ps
                            break
                if hit is not None:
                    if len(hit) == 1 and hit[0][0] == "z" and hit[0][3] is None and p[3] is not None:
                        h = hit[0]
                        ns.append(("z", h[1], h[2], p[3]))
                    else:
                        ns.extend(hit)
                elif pairs:
                    ns.append(piece_zsub(p, pairs))
                else:
                    ns.append(p)
            else:
                ns.append(piece_zsub(p, pairs) if pairs else p)
        slots.append(tuple(ns))
    params = tuple(z3.simplify(z3.substitute(x, *pairs)) if pairs else x for x in a.params)
    return Atom(a.fam, params, slots)


def subst_guard(g, m, pairs):
    if isinstance(g, tuple):   # ("iveq", slot1, slot2)
        a = subst_atom(Atom(None, (), (g[1], g[2])), m, pairs)
        return ("iveq", a.slots[0], a.slots[1])
    return z3.simplify(z3.substitute(g, *pairs)) if pairs else g


def subst(e, m):
    """Substitute free variables (binders) of e by piece tuples; m: {Var: tuple(pieces)}"""
    if not m:
        return e
    return Expr([subst_term(t, m) for t in e.t])


def zsub_term(t, pairs):
    m = {}
    bv = []
    for v in t.bv:
        bv.append(Var(v.fac))
    allp = list(pairs) + [(v.z, w.z) for v, w in zip(t.bv, bv) if v.z is not None]
    for v, nv in zip(t.bv, bv):
        nv.fac = v.fac.zsub(allp)
        m[v] = (nv.piece(),)
    at = []
    for a in t.at:
        b = subst_atom(a, m, [])
        at.append(Atom(b.fam, [z3.simplify(z3.substitute(x, *allp)) for x in a.params],
                       [tuple(piece_zsub(p, allp) for p in s) for s in b.slots]))
    g = []
    for x in t.g:
        if isinstance(x, tuple):
            b = subst_atom(Atom(None, (), (x[1], x[2])), m, [])
            g.append(("iveq",) + tuple(tuple(piece_zsub(p, allp) for p in s) for s in b.slots))
        else:
            g.append(z3.simplify(z3.substitute(x, *allp)))
    return Term(t.c, t.sc, bv, at, g)


def zsub(e, pairs):
    """Substitute integer parameter symbols (e.g. a generic loop index) by terms."""
    return Expr([zsub_term(t, pairs) for t in e.t])


def mul(a, b):
    out = []
    for x in a.t:
        for y in b.t:
            y2 = rename_bound(y) if y.bv else y
            out.append(Term(x.c * y2.c, mul_sc(x.sc, y2.sc), x.bv + y2.bv, x.at + y2.at, x.g + y2.g))
    return Expr(out)


def sum_over(e, vs):
    vs = tuple(vs)
    if not vs:
        return e
    return Expr([Term(t.c, t.sc, t.bv + vs, t.at, t.g) for t in e.t])


def guard(e, gs):
    gs = tuple(gs)
    return Expr([Term(t.c, t.sc, t.bv, t.at, t.g + gs) for t in e.t])


# Var registry by z3 name (so that pieces can be mapped back to variables)
_old_init = Var.__init__


def _init(self, fac):
    _old_init(self, fac)
    if self.z is not None:
        zreg[self.z.decl().name()] = self


Var.__init__ = _init


def zconsts(e, acc=None):
    acc = set() if acc is None else acc
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        st.extend(x.children())
    return acc


def bare(p):
    """Variable if the piece is a bare plain variable."""
    if p[0] == "z" and z3.is_const(p[2]) and p[2].decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return zreg.get(p[2].decl().name())
    return None


def occurrences(t):
    """number of occurrences of each variable in the term: {Var: count} (atoms slots bare) and set of 'complex' uses"""
    cnt, cplx = {}, set()

    def scan_z(z):
        for n in zconsts(z):
            v = zreg.get(n)
            if v is not None:
                cplx.add(v)

    for a in t.at:
        for x in a.params:
            scan_z(x)
        for s in a.slots:
            for p in s:
                if p[0] == "v":
                    cnt[p[1]] = cnt.get(p[1], 0) + 1
                elif p[0] == "z":
                    v = bare(p)
                    if v is not None:
                        cnt[v] = cnt.get(v, 0) + 1
                    else:
                        scan_z(p[2])
                else:
                    scan_z(p[6])
    for g in t.g:
        if isinstance(g, tuple):
            for s in g[1:]:
                for p in s:
                    if p[0] == "v":
                        cplx.add(p[1])
                    elif p[0] == "z":
                        scan_z(p[2])
                    else:
                        scan_z(p[6])
        else:
            scan_z(g)
    return cnt, cplx


def in_range(v):
    z = v.z
    if v.fac.flt:
        n, p = v.fac.flt
        return z3.And(z >= 0, z < n, p(z))
    return z3.And(z >= 0, z < v.fac.size)


def valid_in(t_vars, extra, c):
    """c follows from pc, ranges of t_vars, extra guards."""
    s = cx.solver
    cx._instances([c] + [x for x in extra] + [in_range(v) for v in t_vars if v.z is not None])
    s.push()
    for v in t_vars:
        if v.z is not None:
            s.add(in_range(v))
    for x in extra:
        s.add(x)
    s.add(z3.Not(c))
    cx.stats.z3_queries += 1
    import time
    t0 = time.time()
    r = s.check()
    cx.stats.z3_time += time.time() - t0
    s.pop()
    return r == z3.unsat


def all_vars(t):
    cnt, cplx = occurrences(t)
    return set(cnt) | cplx | set(t.bv)


# ------------------------------------------------------------------------- simplification of guards
def flatten_guards(gs):
    out = []
    for g in gs:
        if isinstance(g, tuple):
            out.append(g)
        elif z3.is_and(g):
            out.extend(flatten_guards(g.children()))
        elif z3.is_true(g):
            pass
        else:
            out.append(g)
    return out


def norm_term(t):
    """Simplify guards, eliminate deltas on bound variables, narrow ranges.  Returns list of terms."""
    for _ in range(60):
        # expand filtered variables that are bound
        for v in t.bv:
            if v.fac.flt:
                n, p = v.fac.flt
                nv = Var(Fac(size=n))
                t = Term(t.c, t.sc, tuple(x for x in t.bv if x is not v) + (nv,), t.at, t.g)
                t = subst_term(t, {v: (nv.piece(),)})
                t = Term(t.c, t.sc, t.bv, t.at, t.g + (z3.simplify(p(nv.z)),))
                break
        gs = flatten_guards(t.g)
        if any((not isinstance(g, tuple)) and z3.is_false(g) for g in gs):
            return []
        if len(gs) != len(t.g) or any(a is not b for a, b in zip(gs, t.g)):
            t = Term(t.c, t.sc, t.bv, t.at, gs)
        changed = False
        r = distinct_step(t)
        if r is not None:
            t = r
            continue
        # interval sizes collapse
        for v in t.bv:
            if v.fac.iv:
                f = known_single(v.fac)
                if f is None:
                    t = subst_term(Term(t.c, t.sc, tuple(x for x in t.bv if x is not v), t.at, t.g), {v: ()})
                    changed = True
                    break
                if f is not v.fac:
                    nv = Var(f)
                    t = Term(t.c, t.sc, tuple(nv if x is v else x for x in t.bv), t.at, t.g)
                    t = subst_term(t, {v: (nv.piece(),)})
                    changed = True
                    break
            elif z3.is_int_value(v.fac.size):
                n = v.fac.size.as_long()
                if n == 0:
                    return []
                if n == 1:
                    t = subst_term(Term(t.c, t.sc, tuple(x for x in t.bv if x is not v), t.at, t.g),
                                   {v: (("z", z3.IntVal(1), z3.IntVal(0), v.fac.mode),)})
                    changed = True
                    break
        if changed:
            continue
        for gi, g in enumerate(t.g):
            rest = t.g[:gi] + t.g[gi + 1:]
            if isinstance(g, tuple):
                r = iveq_step(t, g, rest)
                if r is None:
                    continue
                if r == "zero":
                    return []
                t = r
                changed = True
                break
            if z3.is_true(g):
                t = Term(t.c, t.sc, t.bv, t.at, rest)
                changed = True
                break
            if z3.is_false(g):
                return []
            # equality elimination
            if z3.is_eq(g):
                done = False
                l, r = g.arg(0), g.arg(1)
                if l.sort() == z3.IntSort():
                    for v in t.bv:
                        if v.z is None or not occurs(v, g):
                            continue
                        sol = solve_linear(v.z, l, r)
                        if sol is None:
                            continue
                        # sum_v [v==sol] f(v) = [0<=sol<size] f(sol)
                        ot = [x for x in all_vars(t) if x is not v]
                        rg = z3.simplify(z3.And(sol >= 0, sol < v.fac.size))
                        bv = tuple(x for x in t.bv if x is not v)
                        zr = [x for x in rest if not isinstance(x, tuple)]
                        zr = [z3.substitute(x, (v.z, sol)) for x in zr]
                        t2 = subst_term(Term(t.c, t.sc, bv, t.at, rest), {v: (("z", v.fac.size, z3.simplify(sol), v.fac.mode),)})
                        if not valid_in(ot, zr, rg):
                            t2 = Term(t2.c, t2.sc, t2.bv, t2.at, t2.g + (rg,))
                        t = t2
                        done = True
                        break
                if done:
                    changed = True
                    break
            # implied / contradictory guard
            zr = [x for x in rest if not isinstance(x, tuple)]
            av = all_vars(t)
            if valid_in(av, zr, g):
                t = Term(t.c, t.sc, t.bv, t.at, rest)
                changed = True
                break
            if valid_in(av, zr, z3.Not(g)):
                return []
            # range narrowing of a bound variable
            nv = narrow(t, g, rest)
            if nv is not None:
                t = nv
                changed = True
                break
        if not changed:
            return [t]
    return [t]


def distinct_step(t):
    """guards saying that two columns of a list of distinct coordinates agree in every row: the columns are the same"""
    ds = cx.opaque.get("distinct")
    if not ds or len(t.g) < 1:
        return None
    for names, n in ds:
        eqs = {}
        for gi, g in enumerate(t.g):
            if isinstance(g, tuple) or not z3.is_eq(g):
                continue
            l, r = g.arg(0), g.arg(1)
            if not (z3.is_app(l) and z3.is_app(r)) or not l.decl().eq(r.decl()) or l.num_args() != 1:
                continue
            nm = l.decl().name()
            if nm in names:
                a, b = l.arg(0), r.arg(0)
                if a.get_id() > b.get_id():
                    a, b = b, a
                eqs.setdefault((a.get_id(), b.get_id()), (a, b, {}))[2].setdefault(nm, gi)
        for a, b, have in eqs.values():
            if len(have) == len(names):
                drop = set(have.values())
                av = all_vars(t)
                if not valid_in(av, [], z3.And(a >= 0, a < n, b >= 0, b < n)):
                    continue
                return Term(t.c, t.sc, t.bv, t.at, tuple(g for i, g in enumerate(t.g) if i not in drop) + (a == b,))
    return None


def occurs(v, z):
    return v.z.decl().name() in zconsts(z)


def solve_linear(x, l, r):
    """solve l==r for x when x occurs linearly with coefficient +-1"""
    e = z3.simplify(l - r)
    e0 = z3.simplify(z3.substitute(e, (x, z3.IntVal(0))))
    co = z3.simplify(e - e0)
    if z3.simplify(co - x).eq(z3.IntVal(0)):
        return z3.simplify(-e0)
    if z3.simplify(co + x).eq(z3.IntVal(0)):
        return e0
    return None


def narrow(t, g, rest):
    """Guard v>=c / v<c / v<=c / not(..) with v bound and c free of v and of other bound variables."""
    neg = False
    h = g
    if z3.is_not(h):
        neg, h = True, h.arg(0)
    k = h.decl().kind() if z3.is_app(h) else None
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        return None
    l, r = h.arg(0), h.arg(1)
    bnames = {v.z.decl().name() for v in t.bv if v.z is not None}
    for v in t.bv:
        if v.z is None or v.fac.flt or not occurs(v, g):
            continue
        sol = solve_linear(v.z, l, r)     # l-r = ±(v - sol)
        if sol is None or (zconsts(sol) & bnames):
            continue
        e = z3.simplify(l - r)
        pos = z3.simplify(e - (v.z - sol)).eq(z3.IntVal(0))
        # h:  e <op> 0
        op = k
        if neg:
            op = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}[op]
        if not pos:
            op = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}[op]
        # v op sol
        n = v.fac.size
        if op in (z3.Z3_OP_LT, z3.Z3_OP_LE):
            hi = sol if op == z3.Z3_OP_LT else sol + 1
            lo = z3.IntVal(0)
        else:
            lo = sol if op == z3.Z3_OP_GE else sol + 1
            hi = n
        free = [x for x in all_vars(t) if x not in t.bv]
        zr = [x for x in rest if not isinstance(x, tuple) and not (zconsts(x) & bnames)]
        if not valid_in(free, zr, z3.And(lo >= 0, lo <= hi, hi <= n)):
            return None
        nv = Var(Fac(size=z3.simplify(hi - lo)))
        t2 = Term(t.c, t.sc, tuple(x for x in t.bv if x is not v) + (nv,), t.at, rest)
        return subst_term(t2, {v: (("z", nv.fac.size, z3.simplify(nv.z + lo), v.fac.mode),)}) if not lo.eq(z3.IntVal(0)) \
            else subst_term(t2, {v: (("z", nv.fac.size, nv.z, v.fac.mode),)})
    return None


def iveq_step(t, g, rest):
    _, a, b = g
    if slots_equal(a, b):
        return Term(t.c, t.sc, t.bv, t.at, rest)
    # eliminate a bound interval variable
    for x, y in ((a, b), (b, a)):
        if len(x) == 1 and x[0][0] == "v" and x[0][1] in t.bv:
            v = x[0][1]
            if any(p[0] == "v" and p[1] is v for p in y):
                continue
            t2 = Term(t.c, t.sc, tuple(q for q in t.bv if q is not v), t.at, rest)
            return subst_term(t2, {v: tuple(y)})
    # split by pieces when both sides are aligned
    al = align_slots(a, b)
    if al and len(al) > 1:
        gs = []
        for p, q in al:
            if p[0] == "z" and q[0] == "z":
                gs.append(p[2] == q[2])
            else:
                gs.append(("iveq", (p,), (q,)))
        return Term(t.c, t.sc, t.bv, t.at, rest + tuple(gs))
    if al and len(al) == 1 and al[0][0][0] == "z" and al[0][1][0] == "z":
        return Term(t.c, t.sc, t.bv, t.at, rest + (al[0][0][2] == al[0][1][2],))
    return None


def piece_bounds(p):
    if p[0] == "z":
        return (p[3][1], z3.simplify(p[3][1] + 1)) if p[3] else None
    if p[0] == "v":
        return p[1].fac.iv[1], p[1].fac.iv[2]
    return p[2], p[3]


def split_g(p, cut):
    _, b, lo, hi, rev, m, z = p
    A, B = ("g", b, lo, cut, rev, m, z), ("g", b, cut, hi, rev, m, z)
    def one(q):
        if cx.int_eq(q[3], q[2] + 1):
            return ("z", prod_fn(b)[1](q[2]), z3.simplify(z3.substitute(z, (m, q[2]))), (b, q[2]))
        return q
    return (one(A), one(B)) if not rev else (one(B), one(A))


def align_slots(a, b):
    """Align two piece tuples over the same domain; returns list of pairs or None."""
    a, b = list(a), list(b)
    out = []
    n = 0
    while a and b:
        n += 1
        if n > 50:
            return None
        p, q = a[0], b[0]
        bp, bq = piece_bounds(p), piece_bounds(q)
        if bp is None or bq is None:
            if p[0] == "z" and q[0] == "z" and cx.int_eq(p[1], q[1]):
                out.append((p, q)); a.pop(0); b.pop(0)
                continue
            return None
        if cx.int_eq(bp[0], bq[0]) and cx.int_eq(bp[1], bq[1]):
            out.append((p, q)); a.pop(0); b.pop(0)
            continue
        if p[0] == "g" and not p[4] and cx.int_eq(bp[0], bq[0]) and cx.valid(bq[1] < bp[1]):
            a[0:1] = list(split_g(p, bq[1]))
            continue
        if q[0] == "g" and not q[4] and cx.int_eq(bp[0], bq[0]) and cx.valid(bp[1] < bq[1]):
            b[0:1] = list(split_g(q, bp[1]))
            continue
        if p[0] == "g" and p[4] and cx.int_eq(bp[1], bq[1]) and cx.valid(bp[0] < bq[0]):
            a[0:1] = list(split_g(p, bq[0]))
            continue
        if q[0] == "g" and q[4] and cx.int_eq(bp[1], bq[1]) and cx.valid(bq[0] < bp[0]):
            b[0:1] = list(split_g(q, bp[0]))
            continue
        return None
    # drop empty pieces
    for rest in (a, b):
        for p in rest:
            bb = piece_bounds(p)
            if not (bb and cx.int_eq(bb[0], bb[1])) and not cx.int_eq(piece_size(p), 1):
                return None
    return out


def piece_equal(p, q):
    if p[0] == "v" and q[0] == "v":
        return p[1] is q[1]
    if p[0] == "z" and q[0] == "z":
        return p[2].eq(q[2]) or cx.int_eq(p[2], q[2])
    if p[0] == "g" and q[0] == "g":
        m = z3.Int(cx.fresh("m"))
        return p[1] == q[1] and cx.int_eq(p[2], q[2]) and cx.int_eq(p[3], q[3]) and \
            cx.int_eq(z3.substitute(p[6], (p[5], m)), z3.substitute(q[6], (q[5], m)))
    return False


def slots_equal(a, b):
    if len(a) == len(b) and all(p[0] == q[0] and piece_equal(p, q) for p, q in zip(a, b)):
        return True
    al = align_slots(a, b)
    return al is not None and all(piece_equal(p, q) for p, q in al)


# ------------------------------------------------------------------------- matching of terms
def match_terms(t1, t2, params_eq=None):
    """t1 == t2 up to renaming of bound variables (coefficients compared by the caller)."""
    if t1.sc != t2.sc or len(t1.at) != len(t2.at) or len(t1.bv) != len(t2.bv):
        return False
    f1 = sorted(a.fam.name for a in t1.at)
    f2 = sorted(a.fam.name for a in t2.at)
    if f1 != f2:
        return False
    b1, b2 = set(t1.bv), set(t2.bv)
    order = sorted(range(len(t1.at)), key=lambda i: f1.count(t1.at[i].fam.name))

    def go(oi, used, mp, post):
        if oi == len(order):
            return finish(mp, post)
        a = t1.at[order[oi]]
        for j, b in enumerate(t2.at):
            if j in used or not same_fam(a.fam, b.fam) or len(a.slots) != len(b.slots):
                continue
            mp2, post2 = dict(mp), list(post)
            if unify_atom(a, b, mp2, post2) and go(oi + 1, used | {j}, mp2, post2):
                return True
        return False

    def unify_atom(a, b, mp, post):
        if len(a.params) != len(b.params):
            return False
        for x, y in zip(a.params, b.params):
            post.append((x, y))
            if not (zconsts(x) & names1) and not (zconsts(y) & names2):
                if not cx.int_eq(x, y):
                    return False
        for s, u in zip(a.slots, b.slots):
            if len(s) == len(u) and all(unify_piece(p, q, mp, post) for p, q in zip(s, u)):
                continue
            al = align_slots(s, u)
            if al is None:
                return False
            for p, q in al:
                if not unify_piece(p, q, mp, post):
                    return False
        return True

    def unify_piece(p, q, mp, post):
        if p[0] == "v" or q[0] == "v":
            if p[0] != q[0]:
                return False
            v, w = p[1], q[1]
            if v in b1:
                if w not in b2:
                    return False
                if v in mp:
                    return mp[v] is w
                if w in mp.values():
                    return False
                if not same_iv(v.fac, w.fac):
                    return False
                mp[v] = w
                return True
            return v is w
        if p[0] == "z" and q[0] == "z":
            v, w = bare(p), bare(q)
            if v is not None and v in b1:
                if w is None or w not in b2:
                    post.append((p[2], q[2]))
                    return True
                if v in mp:
                    return mp[v] is w
                if w in mp.values():
                    return False
                if not cx.int_eq(v.fac.size, w.fac.size):
                    return False
                mp[v] = w
                return True
            post.append((p[2], q[2]))
            if not (zconsts(p[2]) & names1) and not (zconsts(q[2]) & names2):
                return cx.int_eq(p[2], q[2])
            return True
        if p[0] == "g" and q[0] == "g":
            m = z3.Int("m?")
            post.append((z3.substitute(p[6], (p[5], m)), z3.substitute(q[6], (q[5], m))))
            return p[1] == q[1] and cx.int_eq(p[2], q[2]) and cx.int_eq(p[3], q[3])
        return False

    names1 = {v.z.decl().name() for v in b1 if v.z is not None}
    names2 = {v.z.decl().name() for v in b2 if v.z is not None}

    def finish(mp, post):
        left1 = [v for v in t1.bv if v not in mp]
        left2 = [v for v in t2.bv if v not in mp.values()]
        for v in left1:
            for w in left2:
                if (v.fac.iv and w.fac.iv and same_iv(v.fac, w.fac)) or \
                        (not v.fac.iv and not w.fac.iv and cx.int_eq(v.fac.size, w.fac.size)):
                    mp[v] = w
                    left2.remove(w)
                    break
            else:
                return False
        pairs = [(v.z, w.z) for v, w in mp.items() if v.z is not None]
        allv = list(t2.bv) + [x for x in all_vars(t2) if x not in b2]
        for x, y in post:
            x2 = z3.substitute(x, *pairs) if pairs else x
            if x2.eq(y) or z3.simplify(x2 - y).eq(z3.IntVal(0)) or same_product(x2, y):
                continue
            if not valid_in(allv, [g for g in t2.g if not isinstance(g, tuple)], x2 == y):
                return False
        g1 = [g for g in t1.g if not isinstance(g, tuple)]
        g2 = [g for g in t2.g if not isinstance(g, tuple)]
        i1 = [g for g in t1.g if isinstance(g, tuple)]
        i2 = [g for g in t2.g if isinstance(g, tuple)]
        if len(i1) != len(i2):
            return False
        m = {v: (w.piece(),) for v, w in mp.items()}
        used = set()
        for g in i1:
            h = subst_guard(g, m, pairs)
            for k, q in enumerate(i2):
                if k not in used and ((slots_equal(h[1], q[1]) and slots_equal(h[2], q[2])) or
                                      (slots_equal(h[1], q[2]) and slots_equal(h[2], q[1]))):
                    used.add(k)
                    break
            else:
                return False
        if g1 or g2:
            a = z3.And(*[z3.substitute(g, *pairs) if pairs else g for g in g1]) if g1 else z3.BoolVal(True)
            b = z3.And(*g2) if g2 else z3.BoolVal(True)
            if not valid_in(allv, [], a == b):
                return False
        return True

    return go(0, frozenset(), {}, [])


def same_iv(f, g):
    return f.iv[0] == g.iv[0] and f.iv[3] == g.iv[3] and cx.int_eq(f.iv[1], g.iv[1]) and cx.int_eq(f.iv[2], g.iv[2])


def same_fam(f, g):
    if f is g:
        return True
    if f.payload is not None and g.payload is not None and f.meta.get("fn") == g.meta.get("fn"):
        return equal(f.payload, g.payload)
    return f.name == g.name and f.payload is None and g.payload is None and f.meta.get("uid") == g.meta.get("uid")


# ------------------------------------------------------------------------- rewriting with facts
class PairRule:
    """sum over shared bound indices of famA(..)[..]*famB(..)[..]  ->  result.
    sa, sb: slots contracted (same order).  cond(pa,pb): bool; result(pa, pb, restA, restB) -> Expr"""

    def __init__(self, fa, sa, fb, sb, cond, result, name="", size=None):
        self.fa, self.sa, self.fb, self.sb, self.cond, self.result, self.name = fa, sa, fb, sb, cond, result, name
        self.size = size      # product of the ranges of the contracted indices must be this

    def guard(self, t, a, b):
        return True

    def apply(self, t):
        cnt = cplx = None
        for i, a in enumerate(t.at):
            if a.fam is not self.fa:
                continue
            for j, b in enumerate(t.at):
                if i == j or b.fam is not self.fb:
                    continue
                if cnt is None:
                    cnt, cplx = occurrences(t)
                vs = []
                ok = True
                for x, y in zip(self.sa, self.sb):
                    s, u = a.slots[x], b.slots[y]
                    if len(s) != len(u):
                        ok = False
                        break
                    for p, q in zip(s, u):
                        v = p[1] if p[0] == "v" else bare(p)
                        w = q[1] if q[0] == "v" else bare(q)
                        if v is None or v is not w or v not in t.bv or cnt.get(v) != 2 or v in cplx:
                            ok = False
                            break
                        vs.append(v)
                    if not ok:
                        break
                if not ok:
                    continue
                if not self.cond(a.params, b.params) or not self.guard(t, a, b):
                    continue
                if self.size is not None:
                    sz = z3.IntVal(1)
                    for v in vs:
                        sz = sz * v.fac.size
                    want = self.size(a.params, b.params) if callable(self.size) else self.size
                    if not cx.int_eq(z3.simplify(sz), want):
                        continue
                ra = [s for k, s in enumerate(a.slots) if k not in self.sa]
                rb = [s for k, s in enumerate(b.slots) if k not in self.sb]
                r = self.result(a.params, b.params, ra, rb)
                rest = Expr([Term(t.c, t.sc, tuple(v for v in t.bv if v not in vs),
                                  tuple(x for k, x in enumerate(t.at) if k not in (i, j)), t.g)])
                return mul(rest, r)
        return None


def zregd(name):
    """is this the name of an index variable?"""
    return name.startswith("i#")


class SubtermRule:
    """A product of atoms equal to the (single, guard-free) term of a known array is replaced by the array's factorisation.
    a: Arr; result(slots): Expr at the given composite indices."""

    def __init__(self, a, result, name):
        self.name = name
        self.pat = a.body.t[0]
        self.axes = a.axes
        self.result = result
        self.fams = [x.fam for x in self.pat.at]
        self.free = {v for ax in a.axes for v in ax}
        self.bound = set(self.pat.bv)

    @staticmethod
    def usable(a):
        if len(a.body.t) != 1:
            return False
        t = a.body.t[0]
        if t.c != 1 or t.sc or t.g or not t.at:
            return False
        if any(not isinstance(ax, tuple) or any(v.fac.flt for v in ax) for ax in a.axes):
            return False
        if any(v.fac.flt for v in t.bv) or any(zregd(c) for x in t.at for p in x.params for c in zconsts(Z(p))):
            return False
        names = {v for ax in a.axes for v in ax} | set(t.bv)
        seen = set()
        for x in t.at:
            for s in x.slots:
                for p in s:
                    v = whole(p)
                    if v is None or v not in names:
                        return False
                    seen.add(v)
        return names <= seen

    def apply(self, t):
        # a cheap filter
        have = {}
        for x in t.at:
            have[x.fam] = have.get(x.fam, 0) + 1
        for f in self.fams:
            if f not in have:
                return None
        cnt, cplx = occurrences(t)
        pat = self.pat

        def unify(x, y, m):
            if x.fam is not y.fam or len(x.slots) != len(y.slots) or not same_params(x.params, y.params):
                return None
            m = dict(m)
            for s, u in zip(x.slots, y.slots):
                if len(s) == 1:
                    ps = [(whole(s[0]), tuple(u))]
                elif len(s) == len(u):
                    ps = [(whole(p), (q,)) for p, q in zip(s, u)]
                else:
                    return None
                for v, q in ps:
                    if v in m:
                        if len(m[v]) != len(q) or not all(a[0] == b[0] and piece_equal(a, b) for a, b in zip(m[v], q)):
                            return None
                    elif v.fac.iv:
                        if not same_block(v.fac.iv, q):
                            return None
                        if v in self.bound:
                            if len(q) != 1 or q[0][0] != "v":
                                return None
                            w = q[0][1]
                            if w not in t.bv or w in cplx or any(w is whole(z[0]) for k, z in m.items() if k in self.bound):
                                return None
                        m[v] = q
                    else:
                        n = z3.IntVal(1)
                        for r in q:
                            if r[0] != "z" or r[1] is None:
                                n = None
                                break
                            n = n * r[1]
                        if n is None or (not q and True):
                            return None
                        if v in self.bound:
                            if len(q) != 1:
                                return None
                            w = bare(q[0])
                            if w is None or w not in t.bv or w in cplx or not cx.int_eq(w.fac.size, v.fac.size):
                                return None
                            if any(w is whole(z[0]) for k, z in m.items() if k in self.bound):
                                return None
                        elif not self._range(v, q, n):
                            return None
                        m[v] = q
            return m

        def go(i, used, m):
            if i == len(pat.at):
                return self._done(t, used, m, cnt)
            for j, y in enumerate(t.at):
                if j in used:
                    continue
                m2 = unify(pat.at[i], y, m)
                if m2 is not None:
                    r = go(i + 1, used + (j,), m2)
                    if r is not None:
                        return r
            return None

        return go(0, (), {})

    def _range(self, v, q, n):
        """the index stays in the range of the pattern's axis"""
        if cx.int_eq(z3.simplify(n), v.fac.size):
            return True
        if len(q) == 1:
            w = bare(q[0])
            if w is not None and cx.valid(w.fac.size <= v.fac.size):
                return True
            if w is None:
                z = q[0][2]
                return cx.valid(z3.And(z >= 0, z < v.fac.size)) if not any(zreg.get(x) for x in zconsts(z)) else \
                    valid_in([zreg[x] for x in zconsts(z) if x in zreg], [], z3.And(z >= 0, z < v.fac.size))
        return False

    def _done(self, t, used, m, cnt):
        bset = {whole(m[v][0]) for v in self.bound}
        occ = {}
        for j in used:
            for s in t.at[j].slots:
                for p in s:
                    w = whole(p)
                    if w is not None:
                        occ[w] = occ.get(w, 0) + 1
        for w in bset:
            if occ.get(w, 0) != cnt.get(w, 0):
                return None
        slots = []
        for ax in self.axes:
            ps = ()
            for v in ax:
                ps += tuple(m[v])
            slots.append(ps)
        rest = Expr([Term(t.c, t.sc, tuple(v for v in t.bv if v not in bset),
                          tuple(x for k, x in enumerate(t.at) if k not in used), t.g)])
        return mul(rest, self.result(slots))


def whole(p):
    """the variable that the piece is"""
    return p[1] if p[0] == "v" else bare(p)


def same_block(iv, q):
    """the pieces run through the modes lo..hi-1 in the given direction"""
    b, lo, hi, rev = iv
    at = hi if rev else lo
    for p in q:
        base = (p[3] and p[3][0]) if p[0] == "z" else p[1].fac.iv[0] if p[0] == "v" else p[1]
        pb = piece_bounds(p)
        if base != b or pb is None or (p[0] != "z" and bool(p[1].fac.iv[3] if p[0] == "v" else p[4]) != bool(rev)):
            return False
        if not cx.int_eq(pb[1] if rev else pb[0], at):
            return False
        at = pb[0] if rev else pb[1]
    return cx.int_eq(at, lo if rev else hi)


def delta(s, u):
    """[slot s == slot u] as a guard expression"""
    al = align_slots(s, u)
    if al is None:
        if len(s) == 1 and len(u) == 1 and s[0][0] == "z" and u[0][0] == "z":
            return Expr([Term(1, g=(s[0][2] == u[0][2],))])
        if all(p[0] == "z" for p in s) and all(p[0] == "z" for p in u):
            return Expr([Term(1, g=(flat_index(s) == flat_index(u),))])
        raise Unsupported("delta over unaligned indices")
    g = []
    for p, q in al:
        if p[0] == "z" and q[0] == "z":
            g.append(p[2] == q[2])
        else:
            g.append(("iveq", (p,), (q,)))
    return Expr([Term(1, g=tuple(g))])


def normalize(e, rules=None, budget=400):
    """Apply guards simplification and contraction facts to a fixpoint; merge equal terms."""
    rules = cx.rules if rules is None else rules
    work = list(e.t)
    out = []
    n = 0
    while work:
        t = work.pop()
        n += 1
        if n > budget:
            raise Unsupported("normalisation budget")
        if t.c == 0:
            continue
        ts = norm_term(t) if (t.g or t.bv) else [t]
        for t in ts:
            hit = False
            for r in rules:
                res = r.apply(t)
                if res is not None:
                    work.extend(res.t)
                    hit = True
                    break
            if not hit:
                out.append(t)
    return merge(Expr(out))


def merge(e):
    out = []
    for t in e.t:
        for i, u in enumerate(out):
            if match_terms(t, u):
                out[i] = Term(u.c + t.c, u.sc, u.bv, u.at, u.g)
                break
        else:
            out.append(t)
    return Expr([t for t in out if t.c != 0])


def free_vars(e):
    r = set()
    for t in e.t:
        r |= all_vars(t) - set(t.bv)
    return r


# ------------------------------------------------------------------------- equality
def iv_cuts(es):
    cuts = {}
    for e in es:
        for t in e.t:
            items = [p for a in t.at for s in a.slots for p in s]
            items += [p for g in t.g if isinstance(g, tuple) for s in g[1:] for p in s]
            for p in items:
                b = piece_bounds(p)
                if b is None:
                    continue
                base = p[3][0] if p[0] == "z" else (p[1].fac.iv[0] if p[0] == "v" else p[1])
                cuts.setdefault(base, []).extend(b)
            for v in t.bv:
                if v.fac.iv:
                    cuts.setdefault(v.fac.iv[0], []).extend(v.fac.iv[1:3])
    return cuts


def split_ivar(v, cut):
    b, lo, hi, rev = v.fac.iv
    vs = []
    for l, h in ((lo, cut), (cut, hi)):
        f = known_single(Fac(iv=(b, l, h, rev)))
        if f is not None:
            vs.append(Var(f))
    return vs[::-1] if rev else vs


def refine(e, cuts, free_map):
    """Split interval variables at the cut points strictly inside them."""
    for _ in range(40):
        done = True
        for i, t in enumerate(e.t):
            for v in [x for x in all_vars(t) if x.fac.iv]:
                b, lo, hi, rev = v.fac.iv
                for c in cuts.get(b, []):
                    if cx.valid(z3.And(lo < c, c < hi)):
                        if v in t.bv:
                            vs = split_ivar(v, c)
                            t2 = Term(t.c, t.sc, tuple(x for x in t.bv if x is not v) + tuple(vs), t.at, t.g)
                            e = Expr(e.t[:i] + [subst_term(t2, {v: tuple(x.piece() for x in vs)})] + e.t[i + 1:])
                        else:
                            if v not in free_map:
                                free_map[v] = [x.piece() for x in split_ivar(v, c)]
                            e = subst(e, {v: tuple(free_map[v])})
                        done = False
                        break
                if not done:
                    break
            if not done:
                break
        if done:
            return e
    return e


def unfold_once(e, pred):
    """Unfold atoms whose family is recursive and pred(atom) holds."""
    out, hit = [], False
    for t in e.t:
        for i, a in enumerate(t.at):
            if a.fam.unfold is not None and pred(a):
                r = a.fam.unfold(a.params, a.slots)
                if r is not None:
                    rest = Expr([Term(t.c, t.sc, t.bv, t.at[:i] + t.at[i + 1:], t.g)])
                    out.extend(mul(rest, r).t)
                    hit = True
                    break
        else:
            out.append(t)
    return Expr(out), hit


def _match_all(e1, e2):
    d = merge(add(e1, scale(e2, -1)))
    if not d.t:
        return True, d
    r = join_ranges(d)
    return (r is not None and not r.t), d


def join_ranges(d):
    """sum_{i<n} f(i) = sum_{i<c} f(i) + sum_{i<n-c} f(i+c): split the long sums of the residual at the offsets of the short ones"""
    for _ in range(12):
        cand = []
        for t in d.t:
            for v in t.bv:
                if v.z is None or v.fac.flt or z3.is_int_value(v.fac.size):
                    continue
                cand.append(v.fac.size)
                for a in t.at:
                    for s in a.slots:
                        for p in s:
                            if p[0] == "z" and bare(p) is None and occurs(v, p[2]):
                                o = z3.simplify(p[2] - v.z)
                                if not occurs(v, o):
                                    cand.append(o)
        cuts = []
        for c in cand:
            if not any(c.eq(x) for x in cuts):
                cuts.append(c)
        if len(cuts) > 12:
            return None
        done = False
        for i, t in enumerate(d.t):
            for v in t.bv:
                if v.z is None or v.fac.flt:
                    continue
                for c in cuts:
                    if zconsts(c) & {w.z.decl().name() for w in t.bv if w.z is not None}:
                        continue
                    if not cx.valid(z3.And(c >= 0, c <= v.fac.size)) or cx.int_eq(c, 0) or cx.int_eq(c, v.fac.size):
                        continue
                    parts = []
                    for lo, hi in ((z3.IntVal(0), c), (c, v.fac.size)):
                        nv = Var(Fac(size=z3.simplify(hi - lo)))
                        t2 = Term(t.c, t.sc, tuple(x for x in t.bv if x is not v) + (nv,), t.at, t.g)
                        parts.append(subst_term(t2, {v: (("z", v.fac.size, z3.simplify(nv.z + lo), v.fac.mode),)}))
                    e = merge(Expr(d.t[:i] + d.t[i + 1:] + [y for x in parts for y in norm_term(x)]))
                    if not e.t:
                        return e
                    if len(e.t) <= len(d.t):
                        d, done = e, True
                        break
                if done:
                    break
            if done:
                break
        if not done:
            return d
    return d


def split_guards_on_free(e1, e2, cont):
    """Case split on guards that only involve free variables."""
    for e in (e1, e2):
        for t in e.t:
            bn = {v.z.decl().name() for v in t.bv if v.z is not None}
            for g in t.g:
                if isinstance(g, tuple) or (zconsts(g) & bn):
                    continue
                res = True
                for c in (g, z3.simplify(z3.Not(g))):
                    cx.solver.push()
                    n = len(cx.pc)
                    cx.pc.append(c)
                    cx.solver.add(c)
                    cx._instances([c])
                    saved = cx.eqcache
                    cx.eqcache = dict(saved)
                    try:
                        if cx.solver.check() != z3.unsat:
                            a = normalize(Expr([x for x in map(lambda q: drop_guard(q, c), e1.t) if x is not None]))
                            b = normalize(Expr([x for x in map(lambda q: drop_guard(q, c), e2.t) if x is not None]))
                            res = split_guards_on_free(a, b, cont)
                    finally:
                        cx.solver.pop()
                        cx.lemmas_done = set()
                        cx._instances(cx.pc)
                        del cx.pc[n:]
                        cx.eqcache = saved
                    if not res:
                        return False
                return True
    return cont(e1, e2)


def drop_guard(t, c):
    gs = []
    for g in t.g:
        if isinstance(g, tuple):
            gs.append(g)
            continue
        if cx.valid(g):
            continue
        if cx.valid(z3.Not(g)):
            return None
        gs.append(g)
    return Term(t.c, t.sc, t.bv, t.at, gs)


last_diff = [None]


def equal(e1, e2, depth=3):
    """Decide e1 == e2 at a generic index (free variables universally quantified).  The ranges of the indices are assumed here only."""
    rng = [in_range(v) for v in free_vars(e1) | free_vars(e2) if v.z is not None]
    eq, lem = cx.eqcache, set(cx.lemmas_done)
    cx.eqcache = dict(eq)
    cx.solver.push()
    ok = False
    try:
        for c in rng:
            cx.solver.add(c)
            cx._instances([c])
        ok = cx.solver.check() == z3.unsat or _equal(e1, e2)
    finally:
        cx.solver.pop()
        cx.eqcache, cx.lemmas_done = eq, lem
    last_ranges[:] = rng
    return ok


def differ():
    """after a difference: a counterexample has non-empty ranges"""
    for c in last_ranges:
        cx.solver.add(c)
        cx._instances([c])


last_ranges = []


def upwards(e):
    """Multi-indices that are run through downwards are renamed: sums over them, and the order in which the pieces of a slot are listed
    (a slot with more than one mode is listed downwards only in a transposed array, where its pieces say which mode they belong to)."""
    if not any(v.fac.iv and v.fac.iv[3] for t in e.t for v in t.bv):
        return e

    def down(s):
        if len(s) < 2 or any(p[0] == "g" for p in s) or not all(piece_bounds(p) for p in s):
            return s
        b = [piece_bounds(p) for p in s]
        return tuple(reversed(s)) if all(cx.int_eq(x[0], y[1]) for x, y in zip(b, b[1:])) else s
    out = []
    for t in e.t:
        m = {v: Var(Fac(iv=v.fac.iv[:3] + (False,))) for v in t.bv if v.fac.iv and v.fac.iv[3]}
        if m and not any(isinstance(g, tuple) for g in t.g):
            u = subst_term(Term(t.c, t.sc, tuple(v for v in t.bv if v not in m), t.at, t.g), {v: (w.piece(),) for v, w in m.items()})
            t = Term(u.c, u.sc, u.bv + tuple(m.values()), tuple(Atom(a.fam, a.params, [down(x) for x in a.slots]) for a in u.at), u.g)
        out.append(t)
    return Expr(out)


def _equal(e1, e2):
    fm = {}
    e1, e2 = upwards(e1), upwards(e2)

    def attempt(a, b):
        cuts = iv_cuts([a, b])
        a, b = refine(a, cuts, fm), refine(b, cuts, fm)
        a, b = normalize(a), normalize(b)
        cuts = iv_cuts([a, b])
        a, b = refine(a, cuts, fm), refine(b, cuts, fm)
        return a, b

    def cont(a, b):
        return _match_all(a, b)[0]

    a, b = attempt(e1, e2)
    for step in range(24):
        ok = split_guards_on_free(a, b, cont)
        if ok:
            return True
        # unfold the recursive atoms that are 'highest' above a common base
        atoms = [x for e in (a, b) for t in e.t for x in t.at if x.fam.unfold is not None]
        if not atoms:
            break
        best = pick_unfold(atoms)
        if best is None:
            break
        hit1 = hit2 = False
        # cut interval variables where the unfolding needs it
        fam, par = best
        need = fam.meta.get("cuts")
        if need:
            cuts = need(par)
            a, b = refine(a, cuts, fm), refine(b, cuts, fm)
        a, hit1 = unfold_once(a, lambda x: x.fam is fam and same_params(x.params, par))
        b, hit2 = unfold_once(b, lambda x: x.fam is fam and same_params(x.params, par))
        if not (hit1 or hit2):
            break
        a, b = attempt(a, b)
    last_diff[0] = (a, b)
    return False


def same_params(p, q):
    return len(p) == len(q) and all(cx.int_eq(x, y) for x, y in zip(p, q))


def pick_unfold(atoms):
    """Choose (family, params) to unfold next: an atom which some other atom (of the same direction group)
    lies strictly below; definitional families (meta['always']) first."""
    for a in atoms:
        if a.fam.meta.get("always") and a.fam.unfold(a.params, a.slots) is not None:
            return a.fam, a.params
    groups = {}
    for a in atoms:
        groups.setdefault(a.fam.meta.get("group", a.fam.name), []).append(a)
    for gname, xs in groups.items():
        dirn = xs[0].fam.meta.get("dir", 1)
        for a in xs:
            for b in xs:
                if a is b:
                    continue
                ia, ib = a.fam.meta["idx"](a.params), b.fam.meta["idx"](b.params)
                dlt = z3.simplify((ia - ib) * dirn)
                if z3.is_int_value(dlt):
                    if 0 < dlt.as_long() <= 6:
                        return a.fam, a.params
                elif cx.valid(ia * dirn > ib * dirn) and cx.int_eq(ia, ib + dirn):
                    return a.fam, a.params
        for a in xs:
            # concrete endpoint: unfold() can evaluate the base case
            if a.fam.meta.get("isbase") and a.fam.meta["isbase"](a.params):
                return a.fam, a.params
    for a in atoms:
        r = a.fam.meta.get("eager")
        if r and r(a.params):
            return a.fam, a.params
    return None
