"""C18, C19: contracts of the Cython module (lazy Gaussian and sparse sign matrices), for arrays of any size."""
import time
import z3
from . import pyx
from .pyx import Unit, Int, PyArr, Fail, Unsup, Word, Dbl, I, B64, WORDOF, apps, consts
from .scen import scenario, SCEN

X2 = z3.BitVec("x'", 64)


def direct(prop, name, fns):
    def reg(f):
        scenario(prop, name, fns=fns, unbounded=True, concrete=False)(lambda e: None)

        def run(root, limit):
            t0 = time.time()
            r = dict(verdict="proved", detail="", sizes=None, value_path=False, paths=1)
            u = None
            try:
                u = Unit(root, limit)
                f(u)
                if u.check(z3.BoolVal(True))[0] == z3.unsat:
                    r.update(verdict="undecided", detail="vacuous: the preconditions contradict each other")
            except Fail as e:
                h = e.hint
                r.update(verdict="refuted", detail=str(e.why), obl=e.name, definite=h != pyx.LOOSE and h is not None, hint=h if isinstance(h, dict) else None)
            except Unsup as e:
                r.update(verdict="undecided", detail=str(e))
            except z3.Z3Exception as e:
                r.update(verdict="undecided", detail=f"verifier: {e}")
            if u is not None:
                by = {}
                for n, c in u.obl.items():
                    by[u.by[n]] = by.get(u.by[n], 0) + c
                r.update(names=dict(u.obl), backend=dict(u.by), by=by, z3=u.z3t, queries=u.queries,
                         trusted=sorted(u.trusted), functions=["tt_sketch/drm/fast_lazy_gaussian.pyx:" + x for x in sorted(u.used)])
            r["wall"] = time.time() - t0
            return r
        SCEN[prop][-1].direct = run
        return f
    return reg


# ---------------------------------------------------------------- the hash of a word
def steps(e, x):
    """e = f1(f2(...fk(x))): [(body of f, variable)], outermost first"""
    y = z3.BitVec("y", 64)
    out = []
    while not e.eq(x):
        best = None
        seen, st = set(), list(e.children())
        while st:
            t = st.pop(0)
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if t.sort() == B64 and x.decl().name() in consts(t):
                b = z3.substitute(e, (t, y))
                if x.decl().name() not in consts(b):
                    best = (b, t)
                    break
            st += t.children()
        if best is None:
            raise Unsup("the hash is not a chain of steps")
        out.append((best[0], y))
        e = best[1]
    return out


def odd(b, y):
    """the constant of a step y -> c*y, or None"""
    if b.decl().kind() == z3.Z3_OP_BMUL and b.num_args() == 2:
        for c, t in ((b.arg(0), b.arg(1)), (b.arg(1), b.arg(0))):
            if z3.is_bv_value(c) and t.eq(y):
                return c.as_long()
    return None


def solve(u, b, y, val):
    c = odd(b, y)
    if c is not None:
        return val * pow(c, -1, 2**64) % 2**64 if c % 2 else None
    r, m = u.check(b == val)
    return m.eval(y, model_completion=True).as_long() if r == z3.sat else None


def hash_of(u):
    hs = [h for h in (u.hash or {}).items() if h[1]]
    if len(hs) != 1:
        raise Unsup("one hash function expected")
    return hs[0]


@direct("C18", "hash_int_c: every word is replaced by a bijective function of its value", ["hash_int_c"])
def bijection(u):
    f = u.funcs.get("hash_int_c")
    if f is None:
        raise Unsup("no function hash_int_c")
    c = u.elementwise(f)
    if c is None:
        raise Unsup("hash_int_c does not rewrite one array of words")
    u.used.add("hash_int_c")
    _, e, x = c
    name = "distinct words have distinct hashes"
    ch = steps(e, x)
    for k, (b, y) in enumerate(ch):
        c = odd(b, y)
        if c is not None:
            if c % 2:
                assert c * pow(c, -1, 2**64) % 2**64 == 1
                u.done("multiplication by an odd constant is injective modulo 2^64", "modular inverse")
                continue
            pair = (0, 2**63)
        else:
            r, m = u.check(z3.And(b == z3.substitute(b, (y, X2)), y != X2), 20000)
            if r == z3.unsat:
                u.done("every step of the hash is injective")
                continue
            if r != z3.sat:
                raise Unsup("z3 does not decide the injectivity of a step")
            pair = tuple(m.eval(v, model_completion=True).as_long() for v in (y, X2))
        for b2, y2 in ch[k + 1:]:
            pair = tuple(None if v is None else solve(u, b2, y2, v) for v in pair)
        if None in pair or pair[0] == pair[1]:
            raise Fail(name, "a step of the hash is not injective")
        raise Fail(name, f"words {pair[0]:#x} and {pair[1]:#x} have the same hash", dict(words=list(pair)))
    u.done(name, "composition of injective steps")


# ---------------------------------------------------------------- requests
class Req:
    """arguments of a request, with the documented preconditions"""

    def __init__(self, u, pre, common):
        self.u, self.pre = u, pre
        s = u.solver
        self.d, self.SH, self.seed = common
        self.N = z3.Int("N_" + pre)
        IND = z3.Function("IND_" + pre, I, I, I)
        self.IND = IND
        s.add(self.N >= 0, self.N < 2**31)
        self.inds = PyArr([self.d, self.N], lambda t: Int(IND(t[0], t[1]), "py"), "pyint")
        self.shape = PyArr([self.d], lambda t: Int(self.SH(t[0]), "py"), "pyint")

    def go(self, name, *args):
        u = self.u
        u.prefix = self.pre
        IND, SH = self.IND, self.SH
        u.facts = {"ind": lambda l, n: IND(l, n), "shape": lambda l: SH(l), "d": self.d}
        f = u.funcs.get(name)
        if f is None:
            raise Unsup("no function " + name)
        r = u.call(f, [self.inds, self.shape] + list(args))
        if not isinstance(r, PyArr):
            raise Unsup("not an array")
        return r


def common(u):
    d, SH, seed = z3.Int("d"), z3.Function("SH", I, I), z3.Int("seed")
    u.solver.add(d >= 1, d < 2**31, seed >= 0, seed < 2**63)
    return d, SH, seed


def columns(u, pre):
    lo, hi = z3.Int("lo_" + pre), z3.Int("hi_" + pre)
    u.solver.add(lo >= 0, lo <= hi, hi < 2**31)
    return lo, hi


def at(u, r, pre):
    n, c = z3.Int("n_" + pre), z3.Int("c_" + pre)
    u.solver.add(n >= 0, n < r.dims[0], c >= 0, c < r.dims[1])
    return n, c


def shape_is(u, r, a, b):
    if len(r.dims) != 2:
        raise Fail("shape of the result", f"{len(r.dims)} axes", {})
    u.prove(r.dims[0] == a, "one row per requested index")
    u.prove(r.dims[1] == b, "one column per requested column number")


def single_key(u):
    if "step" not in u.folds:
        raise Unsup("no flat number of a multi-index")


def same_key(u, A, B, n, m):
    """rows n of A and m of B ask for the same multi-index, so the fold (same step function, checked) gives the same key"""
    single_key(u)
    u.solver.add(u.folds["A"](n) == u.folds["B"](m))


def equal_entries(u, v, w, name):
    if type(v) is not type(w):
        raise Unsup("entries of different kinds")
    if isinstance(v, Dbl):
        if v.key != w.key:
            raise Unsup("entries are different functions of a word")
        u.prove(v.word == w.word, name)
    elif isinstance(v, Int):
        u.prove(v.z == w.z, name)
    else:
        raise Unsup("kind of entries")


NORMAL = ["inds_to_normal", "_inds_to_normal", "_inds_to_rand_double", "uint_to_normal", "hash_int_c"]


@direct("C18", "inds_to_normal: shape, finite entries, array bounds, one key per multi-index", NORMAL)
def normal_one(u):
    A = Req(u, "A", common(u))
    lo, hi = columns(u, "A")
    r = A.go("inds_to_normal", Int(lo), Int(hi), Int(A.seed))
    shape_is(u, r, A.N, hi - lo)
    n, c = at(u, r, "A")
    v = r.fn((n, c))
    if not isinstance(v, Dbl) or not v.key.startswith("ndtri("):
        raise Unsup("entries are not quantiles of the normal distribution")
    # which words the entry is computed from: one hash of an injective argument
    single_key(u)
    name, (H, _, _) = hash_of(u)
    outer = [t for t in apps(v.word, H.name()) if apps(t, "keyA")]
    if len(outer) != 1:
        raise Unsup("entries are not functions of a single hash")
    arg, key = outer[0].arg(0), u.folds["A"](n)
    k2 = z3.BitVec("key2", 64)
    if [t for t in apps(v.word, "keyA") if not t.eq(key)]:
        raise Fail("an entry depends on its own multi-index only", str(v.word)[:300])
    u.done("an entry depends on its own multi-index only")
    u.prove(z3.Implies(arg == z3.substitute(arg, (key, k2)), key == k2), "distinct multi-indices are hashed from distinct words")
    # distinct columns and distinct seeds: with an injective inner hash (proved separately)
    c2 = z3.Int("column2")
    arg2 = z3.substitute(arg, (c, c2))
    ax = []
    for a in (arg, arg2):
        for t in apps(a, H.name()):
            for b in (arg, arg2):
                for t2 in apps(b, H.name()):
                    ax.append(z3.Implies(t == t2, t.arg(0) == t2.arg(0)))
    ws = apps(arg, "word") + apps(arg2, "word")
    for a in ws:
        for b in ws:
            ax.append(z3.Implies(z3.And(a == b, a.arg(0) >= 0, a.arg(0) < 2**63, b.arg(0) >= 0, b.arg(0) < 2**63), a.arg(0) == b.arg(0)))
    u.solver.add(c2 >= 0, c2 < hi - lo)
    u.solver.add(*ax)
    u.prove(z3.Implies(arg == arg2, c == c2), "distinct columns are hashed from distinct words")
    s2 = z3.Int("seed2")
    arg3 = z3.substitute(arg, (A.seed, s2))
    u.solver.add(s2 >= 0, s2 < 2**63)
    ws = apps(arg, "word") + apps(arg3, "word")
    for a in ws:
        for b in ws:
            u.solver.add(z3.Implies(z3.And(a == b, a.arg(0) >= 0, a.arg(0) < 2**63, b.arg(0) >= 0, b.arg(0) < 2**63), a.arg(0) == b.arg(0)))
    u.prove(z3.Implies(arg == arg3, A.seed == s2), "distinct seeds give distinct words")


@direct("C18", "inds_to_normal: an entry is a function of seed, multi-index and column alone", NORMAL)
def normal_two(u):
    com = common(u)
    A, B = Req(u, "A", com), Req(u, "B", com)
    la, ha = columns(u, "A")
    lb, hb = columns(u, "B")
    ra = A.go("inds_to_normal", Int(la), Int(ha), Int(A.seed))
    rb = B.go("inds_to_normal", Int(lb), Int(hb), Int(B.seed))
    shape_is(u, ra, A.N, ha - la)
    shape_is(u, rb, B.N, hb - lb)
    n, c = at(u, ra, "A")
    m, k = at(u, rb, "B")
    same_key(u, A, B, n, m)
    u.solver.add(la + c == lb + k)
    equal_entries(u, ra.fn((n, c)), rb.fn((m, k)), "two requests agree on the entry of the same multi-index, column and seed")


# ---------------------------------------------------------------- sparse signs
SIGN = ["inds_to_sparse_sign", "_inds_to_sparse_sign", "_inds_to_rand_double", "hash_int_c"]


def signs(u, A, rank, nnz, lo, hi):
    return A.go("inds_to_sparse_sign", Int(rank), Int(lo), Int(hi), Int(nnz), Int(A.seed))


def sizes(u):
    rank, nnz = z3.Int("rank"), z3.Int("nnz")
    u.solver.add(rank >= 1, rank < 2**31, nnz >= 0, nnz < 2**31)
    return rank, nnz


@direct("C19", "inds_to_sparse_sign: every row is a permutation of min(nnz, rank) signs and zeros", SIGN)
def sign_rows(u):
    A = Req(u, "A", common(u))
    rank, nnz = sizes(u)
    u.solver.add(A.N * rank < 2**62, A.N * nnz < 2**62)
    lo, hi = columns(u, "A")
    u.solver.add(hi <= rank)
    r = signs(u, A, rank, nnz, lo, hi)
    shape_is(u, r, A.N, hi - lo)
    n, c = at(u, r, "A")
    P = u.perms.get("A", [])
    if len(P) != 1:
        raise Unsup("rows are not shuffled by one loop of exchanges")
    p = P[0]
    v = r.fn((n, c))
    if not isinstance(v, Int) or v.z.decl().name() != p["sym"].name():
        raise Unsup("entries are not cells of the shuffled rows")
    name = "the columns of the result are those of the shuffled rows"
    u.prove(v.z == p["sym"](n, lo + c), name)
    u.prove(p["width"] == rank, "every row has as many cells as the rank")
    k = z3.Int("k")
    m = z3.If(nnz <= rank, nnz, rank)
    u.solver.add(k >= 0, k < rank)
    u.solver.add(p["row"] == n)
    w = p["fn"]((p["row"], k))
    z = u.int(w)
    name = "before the shuffle a row has min(nnz, rank) signs, then zeros"
    u.prove(z3.Implies(k < m, z3.Or(z == 1, z == -1)), name)
    u.prove(z3.Implies(k >= m, z == 0), name)
    u.done("a shuffle by exchanges permutes the row", "exchange rule")


@direct("C19", "inds_to_sparse_sign: a row is a function of seed and multi-index, a column range is a part of it", SIGN)
def sign_two(u):
    com = common(u)
    A, B = Req(u, "A", com), Req(u, "B", com)
    rank, nnz = sizes(u)
    for R in (A, B):
        u.solver.add(R.N * rank < 2**62, R.N * nnz < 2**62)
    la, ha = columns(u, "A")
    lb, hb = columns(u, "B")
    u.solver.add(ha <= rank, hb <= rank)
    ra, rb = signs(u, A, rank, nnz, la, ha), signs(u, B, rank, nnz, lb, hb)
    n, c = at(u, ra, "A")
    m, k = at(u, rb, "B")
    if len(u.perms.get("A", [])) != 1 or len(u.perms.get("B", [])) != 1:
        raise Unsup("rows are not shuffled by one loop of exchanges")
    p, q = u.perms["A"][0], u.perms["B"][0]
    same_key(u, A, B, n, m)
    col = z3.Int("col0")
    u.solver.add(col >= 0, col < rank)
    u.solver.add(p["row"] == n, q["row"] == m)
    equal_entries(u, p["fn"]((p["row"], col)), q["fn"]((q["row"], col)), "rows before the shuffle are functions of seed and multi-index")
    step = z3.Int("step")
    u.prove(z3.And(p["lo"] == q["lo"], p["hi"] == q["hi"]), "the shuffles have the same steps")
    u.solver.add(step >= p["lo"], step < p["hi"])
    for a in ("p", "q"):
        x = z3.substitute(p[a], (p["row"], n), (p["i"], step))
        y = z3.substitute(q[a], (q["row"], m), (q["i"], step))
        u.prove(x == y, "each step exchanges the same two columns in both requests")
    va, vb = ra.fn((n, c)), rb.fn((m, k))
    for v, P, row, cc in ((va, p, n, la + c), (vb, q, m, lb + k)):
        if not isinstance(v, Int) or v.z.decl().name() != P["sym"].name():
            raise Unsup("entries are not cells of the shuffled rows")
        u.prove(v.z == P["sym"](row, cc), "a column range is the corresponding part of the shuffled row")
    u.done("equal rows shuffled by equal exchanges are equal", "induction over the steps of the shuffle")
