"""Verifier for the Cython module: symbolic execution of its functions over bit-vectors, integers and arrays of any length.

The syntax tree comes from Cython's own parser on every run (pyx_dump.py), so the verified text is the text that is compiled.
Loops are not unrolled.  A loop is replaced by its effect with one of three rules, each with proof obligations:
 * parallel rule: every iteration touches only the cells it owns (its row, its column, its element);
 * fold rule: the mixed-radix invariant for the loop over modes (flat number < product of the mode sizes, injective);
 * exchange rule: every iteration exchanges two cells of one row, so the row is permuted.
A function that rewrites every element of one array is used by its callers through its contract only."""
from __future__ import annotations
import itertools
import json
import os
import re
import subprocess
import time
import z3

PY = "/opt/venv/bin/python"
B64 = z3.BitVecSort(64)
FP = z3.Float64()
RNE = z3.RNE()
I = z3.IntSort()
WORDOF = z3.Function("word", I, B64)
EXPO = z3.Function("exponent", B64, I)
W0 = z3.BitVec("w0", 64)
LOOSE = "loose"
LIM = {"int": 31, "short": 15}


class Unsup(Exception):
    pass


class Fail(Exception):
    """an obligation is false; model: assignment found by the solver (or None)"""

    def __init__(self, name, why, hint=None):
        super().__init__(name, why)
        self.name, self.why, self.hint = name, why, hint


class NotParallel(Exception):
    pass


class CarriedRead(Exception):
    pass


class Undef:
    def __init__(self, name):
        self.name = name


class Int:
    def __init__(self, z, t="py"):
        self.z, self.t = z, t


class Word:
    def __init__(self, z):
        self.z = z


class Dbl:
    """double: template over the word w0 (fp or None if transcendental), and the word"""

    def __init__(self, key, fp, word):
        self.key, self.fp, self.word = key, fp, word


class Scaled:
    """double times an integer, only to be truncated"""

    def __init__(self, d, n):
        self.d, self.n = d, n


class Store:
    def __init__(self, etype, dims, fn):
        self.etype, self.dims, self.fn = etype, dims, fn


class View:
    """kind: full (index tuple), flat (one index over all cells), row (first index fixed)"""

    def __init__(self, store, kind="full", row=None, cast=None):
        self.store, self.kind, self.row, self.cast = store, kind, row, cast

    def dims(self):
        s = self.store
        if self.kind == "full":
            return list(s.dims)
        if self.kind == "flat":
            p = s.dims[0]
            for d in s.dims[1:]:
                p = p * d
            return [p]
        return list(s.dims[1:])


class PyArr:
    """numpy array as the Python-level functions see it: shape, element function and element type"""

    def __init__(self, dims, fn, etype, view=None):
        self.dims, self.fn, self.etype, self.view = dims, fn, etype, view


class Func:
    def __init__(self, name, args, body, node, py):
        self.name, self.args, self.body, self.node, self.py = name, args, body, node, py


class Mod:
    def __init__(self, name):
        self.name = name


def poly(e):
    """{monomial (tuple of atom strings): (coefficient, atoms)}"""
    e = z3.simplify(e, som=True)
    out = {}

    def mono(t):
        if z3.is_int_value(t):
            return t.as_long(), []
        if z3.is_mul(t):
            c, a = 1, []
            for x in t.children():
                c2, a2 = mono(x)
                c *= c2
                a += a2
            return c, a
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
            c, a = mono(t.arg(0))
            return -c, a
        return 1, [t]

    def go(t, sgn):
        if z3.is_add(t):
            for x in t.children():
                go(x, sgn)
        elif z3.is_sub(t):
            go(t.arg(0), sgn)
            for x in t.children()[1:]:
                go(x, -sgn)
        else:
            c, a = mono(t)
            a = sorted(a, key=lambda x: x.sexpr())
            k = tuple(x.sexpr() for x in a)
            c0 = out.get(k, (0, a))[0]
            out[k] = (c0 + sgn * c, a)
    go(e, 1)
    return {k: v for k, v in out.items() if v[0]}


def consts(e, out=None, seen=None):
    out, seen = (set() if out is None else out), (set() if seen is None else seen)
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st += x.children()
    return out


def apps(e, name):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == name:
            out.append(x)
        st += x.children()
    return out


class Unit:
    def __init__(self, root, limit=60):
        self.t0, self.limit = time.time(), limit
        self.path = os.path.join(root, "tt_sketch", "drm", "fast_lazy_gaussian.pyx")
        here = os.path.dirname(os.path.abspath(__file__))
        r = subprocess.run([PY, os.path.join(here, "pyx_dump.py"), self.path], capture_output=True, text=True)
        if r.returncode:
            raise Unsup("cannot parse: " + r.stderr[-300:])
        self.tree = json.loads(r.stdout)
        self.src = open(self.path).read()
        self.cnt = itertools.count()
        self.typedefs, self.funcs, self.glob = {}, {}, {}
        self.solver = z3.Solver()
        self.solver.set("timeout", 8000)
        self.obl, self.by, self.z3t, self.queries = {}, {}, 0.0, 0
        self.used, self.trusted = set(), set()
        self.stores = []
        self.track = []
        self.prefix = "A"
        self.hash = None
        self.folds, self.perms = {}, {}
        self.facts = None
        self.divmods = {}
        self.cdivision = bool(re.search(r"^#\s*cython\s*:.*cdivision\s*=\s*True", self.src, re.M))
        self.top(self.tree["body"])

    # ---------------------------------------------------------------- solver
    def fresh(self, base, sort=I):
        return z3.Const(f"{base}_{self.prefix}{next(self.cnt)}", sort)

    def check(self, c, timeout=None):
        if time.time() - self.t0 > self.limit:
            raise Unsup("time limit")
        t = time.time()
        self.solver.push()
        self.solver.add(c)
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if timeout:
            self.solver.set("timeout", 8000)
        self.solver.pop()
        self.z3t += time.time() - t
        self.queries += 1
        return r, m

    def valid(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self.check(z3.BoolVal(True))[0] == z3.unsat
        return self.check(z3.Not(c))[0] == z3.unsat

    def prove(self, c, name, why="", hard=False):
        c = z3.simplify(c)
        if not z3.is_true(c):
            r, m = self.check(z3.Not(c), 30000)
            if r == z3.sat:
                raise Fail(name, f"{why} {str(c)[:300]}: false for {str(m)[:500]}", {} if "overflow" in name else None)
            if r != z3.unsat:
                raise Unsup(f"z3 does not decide '{name}': {str(c)[:200]}")
        self.done(name)

    def done(self, name, backend="z3"):
        self.obl[name] = self.obl.get(name, 0) + 1
        self.by[name] = backend

    # ---------------------------------------------------------------- declarations
    def top(self, n):
        for s in n["stats"] if n["_"] == "StatListNode" else [n]:
            k = s["_"]
            if k == "StatListNode":
                self.top(s)
            elif k == "CTypeDefNode":
                self.typedefs[s["declarator"]["name"]] = self.ctype(s["base_type"])
            elif k == "CFuncDefNode":
                d = s["declarator"]
                args = [(a["declarator"]["name"] or a["base_type"].get("name"), self.ctype(a["base_type"])) for a in d["args"]]
                self.funcs[d["base"]["name"]] = Func(d["base"]["name"], args, s["body"], s, False)
            elif k == "DefNode":
                args = [(a["declarator"]["name"] or a["base_type"].get("name"), "py") for a in s["args"]]
                self.funcs[s["name"]] = Func(s["name"], args, s["body"], s, True)
            elif k == "CVarDefNode":
                for d in s["declarators"]:
                    if "default" in d:
                        self.glob[d["name"]] = (self.ctype(s["base_type"]), d["default"])
            elif k == "SingleAssignmentNode" and s["lhs"]["_"] == "NameNode" and s["rhs"]["_"] != "ImportNode":
                self.glob[s["lhs"]["name"]] = ("py", s["rhs"])

    def ctype(self, b):
        if b["_"] == "MemoryViewSliceTypeNode":
            return ("mv", self.ctype(b["base_type_node"]), len(b["axes"]))
        if b["_"] != "CSimpleBaseTypeNode":
            raise Unsup("type " + b["_"])
        n = b.get("name")
        if n in self.typedefs:
            return self.typedefs[n]
        if n is None:
            return "py"
        if n in ("int", "long", "short", "char"):
            if n == "int" and not b["signed"] or n == "long" and not b["signed"]:
                return "uint64" if b["longness"] or n == "long" else "uint"
            if b["longness"] == -1 or n == "short":
                return "short"
            if b["longness"] >= 1 or n == "long":
                return "ssize"
            return "int" if n == "int" else "char"
        if n in ("Py_ssize_t", "ssize_t", "int64_t"):
            return "ssize"
        if n in ("uint64_t", "size_t"):
            return "uint64"
        if n in ("double", "float64_t"):
            return "double"
        if n in ("bint",):
            return "int"
        return "py"

    # ---------------------------------------------------------------- values
    def word(self, v):
        if isinstance(v, Word):
            return v.z
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return z3.BitVecVal(v % 2**64, 64)
        if isinstance(v, Int):
            s = z3.simplify(v.z)
            if z3.is_int_value(s):
                return z3.BitVecVal(s.as_long() % 2**64, 64)
            return WORDOF(s)
        raise Unsup(f"no word: {type(v).__name__}")

    def int(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, Int):
            return v.z
        raise Unsup(f"no integer: {type(v).__name__}")

    def dbl(self, v):
        if isinstance(v, Dbl):
            return v
        if isinstance(v, (int, float)):
            return float(v)
        raise Unsup(f"no double: {type(v).__name__}")

    def coerce(self, v, t):
        if t == "py" or isinstance(t, tuple) and isinstance(v, (View, PyArr)):
            if isinstance(t, tuple) and isinstance(v, PyArr):
                return self.as_view(v, t)
            if isinstance(t, tuple):
                et = "double" if v.cast else v.store.etype
                if et != t[1]:
                    raise Unsup(f"memoryview of {et} as {t[1]}")
            return v
        if t == "uint64":
            return Word(self.word(v))
        if t in ("int", "short", "ssize", "uint"):
            if isinstance(v, Word):
                raise Unsup("word converted to a signed integer")
            z = self.int(v)
            if t in LIM and not (isinstance(v, Int) and v.t == t) and not isinstance(v, int):
                self.prove(z3.And(z >= -(1 << LIM[t]), z < (1 << LIM[t])), f"no overflow of a C {t}")
            return Int(z, t)
        if t == "double":
            return self.dbl(v)
        raise Unsup(f"type {t}")

    def as_view(self, a, t):
        et, nd = t[1], t[2]
        if len(a.dims) != nd or a.etype != et:
            raise Unsup(f"memoryview {t} of an array of {a.etype} with {len(a.dims)} axes")
        if a.view is None:
            s = Store(a.etype, list(a.dims), a.fn)
            self.stores.append(s)
            a.view = View(s)
        return a.view

    # ---------------------------------------------------------------- array cells
    def split(self, e, store):
        """index tuple of flat position e"""
        if len(store.dims) == 1 and not getattr(store, "flat", False):
            cands = [None]
            p = poly(store.dims[0])
            if len(p) == 1:
                (c, at), = p.values()
                if c == 1 and len(at) == 2:
                    store.flat = at
            if not getattr(store, "flat", False):
                return (e,)
        if len(store.dims) == 2:
            opts = [store.dims]
        else:
            opts = [store.flat, store.flat[::-1]]
        ez = z3.simplify(e)
        for d0, d1 in opts:
            key = d1.sexpr()
            q, s = z3.IntVal(0), z3.IntVal(0)
            for k, (c, at) in poly(ez).items():
                if key in k:
                    rest = list(at)
                    rest.pop(list(k).index(key))
                    t = z3.IntVal(c)
                    for x in rest:
                        t = t * x
                    q = q + t
                else:
                    t = z3.IntVal(c)
                    for x in at:
                        t = t * x
                    s = s + t
            q, s = z3.simplify(q), z3.simplify(s)
            if self.valid(z3.And(s >= 0, s < d1, q >= 0, q < d0)):
                if len(store.dims) == 1:
                    old = store.fn
                    store.dims = [d0, d1]
                    if getattr(store, "const", None) is None:
                        store.fn = lambda t, old=old, d1=d1: old((t[0] * d1 + t[1],))
                return (q, s)
        for d0, d1 in opts:
            if self.valid(z3.And(ez >= 0, ez < d0 * d1)):
                k = (ez.sexpr(), d0.sexpr(), d1.sexpr())
                if k not in self.divmods:
                    self.divmods[k] = (self.fresh("quo"), self.fresh("rem"))
                q, s = self.divmods[k]
                self.solver.add(ez == q * d1 + s, q >= 0, q < d0, s >= 0, s < d1)
                if len(store.dims) == 1:
                    old = store.fn
                    store.dims = [d0, d1]
                    if getattr(store, "const", None) is None:
                        store.fn = lambda t, old=old, d1=d1: old((t[0] * d1 + t[1],))
                return (q, s)
        self.prove(z3.And(ez >= 0, ez < self.size(store)), "every array access in range")
        raise Unsup(f"position {ez} in an array of {store.dims}")

    def size(self, store):
        p = store.dims[0]
        for d in store.dims[1:]:
            p = p * d
        return p

    def cell(self, view, idx):
        s = view.store
        if view.kind == "full":
            if len(idx) == 1 and len(s.dims) == 2 and getattr(s, "flat", None):
                t = self.split(idx[0], s)
            elif len(idx) == 1 and len(s.dims) == 1:
                t = self.split(idx[0], s) if self.composite(s) else tuple(idx)
            else:
                t = tuple(idx)
        elif view.kind == "flat":
            t = self.split(idx[0], s)
        else:
            t = (view.row,) + tuple(idx)
        t = tuple(z3.simplify(x) for x in t)
        if len(t) != len(s.dims):
            raise Unsup("number of subscripts")
        for x, d in zip(t, s.dims):
            self.prove(z3.And(x >= 0, x < d), "every array access in range")
        return t

    def composite(self, s):
        p = poly(s.dims[0])
        return len(p) == 1 and len(list(p.values())[0][1]) == 2

    def load(self, view, idx):
        t = self.cell(view, idx)
        for tr in self.track:
            tr.append((view.store, t, False))
        v = view.store.fn(t)
        if view.cast == "double" and isinstance(v, Word):
            v = Dbl("w0", z3.fpBVToFP(W0, FP), v.z)
        return v

    def store(self, view, idx, v):
        s = view.store
        t = self.cell(view, idx)
        for tr in self.track:
            tr.append((s, t, True))
        if view.cast == "double" or s.etype == "double":
            v = self.dbl(v)
        elif s.etype == "uint64":
            v = Word(self.word(v))
        else:
            v = self.coerce(v, s.etype)
        old = s.fn

        def fn(u, t=t, v=v, old=old):
            c = z3.simplify(z3.And([a == b for a, b in zip(u, t)]))
            if z3.is_true(c):
                return v
            if z3.is_false(c):
                return old(u)
            if self.valid(c):
                return v
            if self.valid(z3.Not(c)):
                return old(u)
            return self.ite(c, v, old(u))
        s.fn = fn

    def ite(self, c, a, b):
        if isinstance(a, Word) and isinstance(b, Word):
            return Word(z3.If(c, a.z, b.z))
        if isinstance(a, Dbl) and isinstance(b, Dbl) and a.key == b.key:
            return Dbl(a.key, a.fp, z3.If(c, a.word, b.word))
        if not isinstance(a, (Dbl, Word, Scaled)) and not isinstance(b, (Dbl, Word, Scaled)):
            return Int(z3.If(c, self.int(a), self.int(b)), a.t if isinstance(a, Int) else "int")
        raise Unsup("cells of different kinds")

    @staticmethod
    def subst(v, pairs):
        if isinstance(v, Word):
            return Word(z3.substitute(v.z, *pairs))
        if isinstance(v, Int):
            return Int(z3.substitute(v.z, *pairs), v.t)
        if isinstance(v, Dbl):
            return Dbl(v.key, v.fp, z3.substitute(v.word, *pairs))
        return v

    # ---------------------------------------------------------------- calls
    def call(self, f, vals):
        self.used.add(f.name)
        env = {}
        for (n, t), v in zip(f.args, vals):
            env[n] = self.coerce(v, t)
        if len(vals) != len(f.args):
            raise Unsup("number of arguments")
        fr = dict(env=env, types=dict(f.args), f=f)
        dec = [d["decorator"] for d in f.node.get("decorators") or []]
        was = self.cdivision
        for d in dec:
            if d["_"] == "SimpleCallNode" and d["function"].get("attribute") == "cdivision":
                self.cdivision = d["args"][0].get("value") is True
        try:
            r = self.block(f.body, fr)
        finally:
            self.cdivision = was
        return None if r is None else r[0]

    def elementwise(self, f):
        """contract of a function that rewrites every element of one array of words by a function of its value"""
        if self.hash is None:
            self.hash = {}
        if f.name in self.hash:
            return self.hash[f.name]
        if len(f.args) != 1 or f.args[0][1] != ("mv", "uint64", 1) or f.py:
            self.hash[f.name] = None
            return None
        self.hash[f.name] = None
        n = self.fresh("len")
        cells = z3.Function("cell", I, B64)
        s = Store("uint64", [n], lambda t: Word(cells(t[0])))
        self.solver.push()
        keep, self.track = self.track, []
        try:
            self.solver.add(n >= 0)
            self.stores.append(s)
            self.call(f, [View(s)])
            k = self.fresh("k")
            self.solver.add(k >= 0, k < n)
            r = s.fn((k,))
            if not isinstance(r, Word):
                raise Unsup("elements of another kind")
            x = z3.BitVec("x", 64)
            e = z3.substitute(r.z, (cells(k), x))
            if consts(e) - {"x"} or apps(e, "cell"):
                raise Fail("an element becomes a function of its value alone", f"{str(e)[:300]}")
            self.done("every element is rewritten by one function of its value, nothing else changes")
        finally:
            self.track = keep
            self.solver.pop()
        H = z3.Function(f"{f.name}@", B64, B64)
        self.hash[f.name] = (H, e, x)
        return self.hash[f.name]

    # ---------------------------------------------------------------- statements
    def block(self, n, fr):
        for s in n["stats"] if n["_"] == "StatListNode" else [n]:
            r = self.stmt(s, fr)
            if r is not None:
                return r
        return None

    def stmt(self, s, fr):
        k = s["_"]
        if k == "StatListNode":
            return self.block(s, fr)
        if k == "CVarDefNode":
            t = self.ctype(s["base_type"])
            for d in s["declarators"]:
                fr["types"][d["name"]] = t
                if "default" in d:
                    fr["env"][d["name"]] = self.coerce(self.ev(d["default"], fr), t)
            return None
        if k == "SingleAssignmentNode":
            self.assign(s["lhs"], self.ev(s["rhs"], fr), fr)
            return None
        if k == "CascadedAssignmentNode":
            v = self.ev(s["rhs"], fr)
            for x in s["lhs_list"]:
                self.assign(x, v, fr)
            return None
        if k == "ParallelAssignmentNode":
            vals = [self.ev(x["rhs"], fr) for x in s["stats"]]
            for x, v in zip(s["stats"], vals):
                self.assign(x["lhs"], v, fr)
            return None
        if k == "InPlaceAssignmentNode":
            cur = self.ev(s["lhs"], fr)
            self.assign(s["lhs"], self.binop(s["operator"], cur, self.ev(s["rhs"], fr)), fr)
            return None
        if k == "ExprStatNode":
            if s["expr"]["_"] not in ("UnicodeNode", "StringNode", "BytesNode", "IdentifierStringNode"):
                self.ev(s["expr"], fr)
            return None
        if k == "ReturnStatNode":
            v = self.ev(s["value"], fr) if "value" in s else None
            if v is None:
                return (None,)
            if not fr["f"].py and v is not None:
                v = self.coerce(v, self.ctype(fr["f"].node["base_type"]))
            return (v,)
        if k == "ForInStatNode":
            return self.loop(s, fr)
        if k == "PassStatNode":
            return None
        if k == "GILStatNode":
            return self.block(s["body"], fr)
        raise Unsup(f"statement {k} at line {s.get('line')}")

    def assign(self, l, v, fr):
        if l["_"] == "NameNode":
            fr["env"][l["name"]] = self.coerce(v, fr["types"].get(l["name"], "py"))
            return
        if l["_"] == "TupleNode" and isinstance(v, tuple):
            for x, y in zip(l["args"], v):
                self.assign(x, y, fr)
            return
        if l["_"] == "IndexNode":
            b = self.ev(l["base"], fr)
            if isinstance(b, PyArr):
                raise Unsup("assignment to an array element")
            self.store(b, self.index(l["index"], fr), v)
            return
        raise Unsup("assignment to " + l["_"])

    def index(self, n, fr):
        if n["_"] == "TupleNode":
            return [self.int(self.ev(x, fr)) for x in n["args"]]
        return [self.int(self.ev(n, fr))]

    # ---------------------------------------------------------------- expressions
    OPS = {"AddNode": "+", "SubNode": "-", "MulNode": "*", "DivNode": "/", "ModNode": "%", "BitwiseOrNode": "|", "IntBinopNode": None,
           "PowNode": "**", "FloorDivNode": "//"}

    def ev(self, n, fr):
        k = n["_"]
        if k == "IntNode":
            return int(n["value"].rstrip("uUlL"), 0)
        if k == "FloatNode":
            return float(n["value"])
        if k == "BoolNode":
            return bool(n["value"])
        if k == "NoneNode":
            return None
        if k == "NameNode":
            name = n["name"]
            if name in fr["env"]:
                v = fr["env"][name]
                if isinstance(v, Undef):
                    raise CarriedRead(name)
                return v
            if name in fr["types"]:
                raise Unsup(f"{name} is read before it is assigned")
            if name in self.glob:
                t, d = self.glob[name]
                return self.coerce(self.ev(d, dict(env={}, types={}, f=fr["f"])), t)
            return Mod(name)
        if k == "AttributeNode":
            o = self.ev(n["obj"], fr)
            if isinstance(o, Mod):
                return Mod(o.name + "." + n["attribute"])
            if n["attribute"] == "shape" and isinstance(o, (View, PyArr)):
                return tuple(Int(d, "ssize") for d in (o.dims() if isinstance(o, View) else o.dims))
            return (o, n["attribute"])
        if k == "IndexNode":
            b = self.ev(n["base"], fr)
            if isinstance(b, tuple) and n["index"]["_"] == "IntNode":
                return b[self.ev(n["index"], fr)]
            if isinstance(b, View):
                if n["index"]["_"] != "TupleNode" and len(b.store.dims) == 2 and b.kind == "full" and not getattr(b.store, "flat", None):
                    i = self.int(self.ev(n["index"], fr))
                    self.prove(z3.And(i >= 0, i < b.store.dims[0]), "every array access in range")
                    return View(b.store, "row", i)
                return self.load(b, self.index(n["index"], fr))
            if isinstance(b, PyArr):
                return self.pyindex(b, n["index"], fr)
            raise Unsup("subscript")
        if k in self.OPS:
            op = self.OPS[k] or n["operator"]
            return self.binop(op, self.ev(n["operand1"], fr), self.ev(n["operand2"], fr))
        if k == "UnaryMinusNode":
            return self.binop("-", 0, self.ev(n["operand"], fr))
        if k == "TupleNode":
            return tuple(self.ev(x, fr) for x in n["args"])
        if k == "TypecastNode":
            t = self.ctype(n["base_type"])
            v = self.ev(n["operand"], fr)
            return self.cast(v, t)
        if k == "SimpleCallNode":
            return self.docall(n["function"], n["args"], {}, fr)
        if k == "GeneralCallNode":
            kw = {}
            if n.get("keyword_args"):
                for it in n["keyword_args"]["key_value_pairs"]:
                    kw[it["key"]["value"]] = it["value"]
            return self.docall(n["function"], n["positional_args"]["args"], kw, fr)
        if k in ("CondExprNode",):
            raise Unsup("conditional expression")
        raise Unsup(f"expression {k} at line {n.get('line')}")

    def cast(self, v, t):
        if t == "int" and isinstance(v, Scaled):
            d, n = v.d, v.n
            if not self.valid(n >= 1):
                raise Unsup("random number scaled by a possibly non-positive integer")
            self.between(d, "0 <= random fraction < 1, so that the random position stays in its range", False)
            f = z3.Function("trunc<" + d.key + ">", B64, I, I)
            z = f(d.word, n)
            self.solver.add(z >= 0, z < n)
            return Int(z, "int")
        if t in ("int", "ssize", "short", "uint"):
            return self.coerce(v, t)
        if t in ("uint64", "double"):
            return self.coerce(v, t)
        raise Unsup(f"cast to {t}")

    def between(self, d, name, strict):
        """0 < d < 1 (or 0 <= d < 1) for every possible word, in IEEE double arithmetic"""
        if not isinstance(d, Dbl) or d.fp is None:
            raise Unsup("bounds of a double")
        w = z3.BitVec("wordbits", 64)
        # abstract the hash values in the word by arbitrary words
        term = d.word
        reps = []
        for H, _, _ in [h for h in (self.hash or {}).values() if h]:
            for a in apps(term, H.name()):
                reps.append((a, z3.BitVec(f"h{len(reps)}", 64)))
        term = z3.substitute(term, *reps)
        s = z3.SolverFor("QF_BVFP") if False else z3.Solver()
        s.set("timeout", 40000)
        s.add(W0 == term)
        c = [z3.fpGT(d.fp, z3.FPVal(0.0, FP)) if strict else z3.fpGEQ(d.fp, z3.FPVal(0.0, FP)), z3.fpLT(d.fp, z3.FPVal(1.0, FP))]
        s.add(z3.Not(z3.And(c)))
        t = time.time()
        r = s.check()
        self.z3t += time.time() - t
        self.queries += 1
        if r == z3.sat:
            m = s.model()
            w = m.eval(W0, model_completion=True).as_long()
            raise Fail(name, f"violated for the random word {w:#x}", dict(mantissa=w & (2**52 - 1)))
        if r != z3.unsat:
            raise Unsup("z3 does not decide " + name)
        self.done(name, "z3 (floating point)")

    def binop(self, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if op == "/":
                return float(a) / float(b)
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "%": lambda: a % b, "**": lambda: a ** b, "|": lambda: a | b,
                    "&": lambda: a & b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b, "//": lambda: a // b}[op]()
        if isinstance(a, (Dbl,)) or isinstance(b, Dbl) or isinstance(a, Scaled) or isinstance(b, Scaled):
            return self.dblop(op, a, b)
        if isinstance(a, Word) or isinstance(b, Word):
            if op in ("<<", ">>"):
                if not isinstance(a, Word):
                    raise Unsup("shift of an integer by a word")
                if isinstance(b, Int):
                    s = z3.simplify(b.z)
                    if not z3.is_int_value(s):
                        raise Unsup("shift by a variable")
                    b = s.as_long()
                if isinstance(b, Word):
                    s = z3.simplify(b.z)
                    if not z3.is_bv_value(s):
                        raise Unsup("shift by a variable")
                    b = s.as_long()
                if not 0 <= b < 64:
                    raise Fail("shift distance below 64", f"shift by {b}")
                return Word(z3.LShR(a.z, b) if op == ">>" else a.z << b)
            x, y = self.word(a), self.word(b)
            f = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "|": lambda: x | y, "&": lambda: x & y, "^": lambda: x ^ y}.get(op)
            if f is None:
                raise Unsup(f"{op} on words")
            return Word(f())
        if isinstance(a, float) or isinstance(b, float):
            raise Unsup("float and integer")
        x, y = self.int(a), self.int(b)
        ta = a.t if isinstance(a, Int) else None
        tb = b.t if isinstance(b, Int) else None
        t = "py" if "py" in (ta, tb) else "ssize" if "ssize" in (ta, tb) else "int"
        if op == "%":
            if not self.valid(y > 0):
                raise Unsup("modulus may be non-positive")
            if self.cdivision and t != "py":
                z = z3.If(x >= 0, x % y, -((-x) % y))
            else:
                z = x % y
        else:
            f = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}.get(op)
            if f is None:
                raise Unsup(f"{op} on integers")
            z = f()
        z = z3.simplify(z)
        if t == "int":
            self.prove(z3.And(z >= -(1 << 31), z < (1 << 31)), "no overflow of a C int")
        return Int(z, t)

    def dblop(self, op, a, b):
        if op == "*" and (isinstance(a, Int) or isinstance(b, Int)):
            d, n = (a, b) if isinstance(b, Int) else (b, a)
            return Scaled(d, n.z)
        if isinstance(a, Scaled) or isinstance(b, Scaled):
            raise Unsup("arithmetic on a scaled random number")
        x, y = self.dbl(a), self.dbl(b)

        def fp(v):
            return z3.FPVal(v, FP) if isinstance(v, float) else v.fp

        def key(v):
            return repr(v) if isinstance(v, float) else v.key
        w = [v for v in (x, y) if isinstance(v, Dbl)]
        if len(w) == 2 and not w[0].word.eq(w[1].word):
            raise Unsup("doubles of different random words combined")
        if any(v.fp is None for v in w):
            raise Unsup("arithmetic on a transcendental value")
        f = {"+": z3.fpAdd, "-": z3.fpSub, "*": z3.fpMul, "/": z3.fpDiv}.get(op)
        if f is None:
            raise Unsup(f"{op} on doubles")
        return Dbl(f"({key(x)}{op}{key(y)})", f(RNE, fp(x), fp(y)), w[0].word)

    # ---------------------------------------------------------------- library
    def docall(self, fn, args, kw, fr):
        if fn["_"] == "NameNode" and fn["name"] in self.funcs:
            f = self.funcs[fn["name"]]
            vals = [self.ev(a, fr) for a in args]
            if kw:
                names = [n for n, _ in f.args]
                for n in names[len(vals):]:
                    vals.append(self.ev(kw[n], fr))
            c = self.elementwise(f) if f.args and f.args[0][1] == ("mv", "uint64", 1) and len(f.args) == 1 else None
            if c is not None:
                self.used.add(f.name)
                v = self.coerce(vals[0], f.args[0][1])
                H, s = c[0], v.store
                if v.kind == "row":
                    raise Unsup("hash of a row")
                for tr in self.track:
                    tr.append((s, None, True))
                old = s.fn
                s.fn = lambda t, old=old: Word(H(old(t).z))
                return None
            return self.call(f, vals)
        name = None
        if fn["_"] == "NameNode" and fn["name"] not in fr["env"]:
            name = fn["name"]
        else:
            o = self.ev(fn, fr)
            if isinstance(o, Mod):
                name = o.name
            elif isinstance(o, tuple) and len(o) == 2 and isinstance(o[1], str):
                return self.method(o[0], o[1], [self.ev(a, fr) for a in args], {k: self.ev(v, fr) for k, v in kw.items()})
        if name == "frexp":
            d = self.ev(args[0], fr)
            tgt = args[1]
            if tgt["_"] != "AmpersandNode" or tgt["operand"]["_"] != "NameNode":
                raise Unsup("frexp")
            if not isinstance(d, Dbl) or d.key != "w0":
                raise Unsup("frexp of a computed double")
            w = d.word
            ex = z3.Extract(62, 52, w)
            self.prove(z3.And(ex != 0, ex != 0x7FF), "the random word is a finite normal double")
            self.prove(z3.Extract(63, 63, w) == 0, "the random word is a positive double")
            e = EXPO(w)
            self.solver.add(e >= -1021, e <= 1024)
            self.assign(tgt["operand"], Int(e, "int"), fr)
            m = z3.Concat(z3.Extract(63, 63, W0), z3.BitVecVal(0x3FE, 11), z3.Extract(51, 0, W0))
            return Dbl("frexp(w0)", z3.fpBVToFP(m, FP), w)
        vals = [self.ev(a, fr) for a in args]
        kws = {k: self.ev(v, fr) for k, v in kw.items()}
        if name == "len":
            return Int((vals[0].dims() if isinstance(vals[0], View) else vals[0].dims)[0], "ssize")
        if name == "int":
            return Int(self.int(vals[0]), "py")
        if name in ("min", "max"):
            a, b = self.int(vals[0]), self.int(vals[1])
            return Int(z3.If(a <= b, a, b) if name == "min" else z3.If(a >= b, a, b), "py")
        if name and name.endswith("ndtri"):
            self.between(vals[0], "the argument of the inverse normal distribution function is inside (0, 1): finite entries", True)
            return Dbl(f"ndtri({vals[0].key})", None, vals[0].word)
        if name and name.split(".")[0] in ("np", "numpy"):
            return self.np(name.split(".", 1)[1], vals, kws)
        raise Unsup(f"call of {name}")

    DT = {"np.uint64": "uint64", "np.int16": "short", "np.float64": "double"}

    def dtype(self, kw, vals=(), pos=None):
        d = kw.get("dtype", vals[pos] if pos is not None and len(vals) > pos else None)
        if not isinstance(d, Mod) or d.name not in self.DT:
            raise Unsup("dtype")
        return self.DT[d.name]

    def newview(self, etype, dims, fn, const=None):
        s = Store(etype, dims, fn)
        s.const = const
        self.stores.append(s)
        return View(s)

    def np(self, f, vals, kw):
        if f == "copy":
            v = vals[0]
            if isinstance(v, View):
                dims, old, row = v.dims(), v.store.fn, v.row
                self.mark(v)
                if v.kind == "row":
                    return self.newview(v.store.etype, dims, lambda t, old=old: old((row,) + tuple(t)))
                if v.kind == "full":
                    return self.newview(v.store.etype, dims, old)
            raise Unsup("np.copy")
        if f == "arange":
            if len(vals) == 1:
                vals = [0] + vals
            a, b = self.int(vals[0]), self.int(vals[1])
            if self.dtype(kw) != "uint64":
                raise Unsup("dtype")
            self.prove(a <= b, "column range is not reversed")
            return self.newview("uint64", [z3.simplify(b - a)], lambda t: Word(self.word(Int(z3.simplify(a + t[0])))))
        if f in ("empty", "zeros"):
            dt = self.dtype(kw, vals, 1)
            sh = vals[0] if isinstance(vals[0], tuple) else (vals[0],)
            dims = [z3.simplify(self.int(x)) for x in sh]
            if f == "zeros":
                zero = Word(z3.BitVecVal(0, 64)) if dt == "uint64" else Int(z3.IntVal(0), "short") if dt == "short" else None
                if zero is None:
                    raise Unsup("zeros")
                return self.newview(dt, dims, lambda t: zero, const=True)
            u = z3.Function(f"garbage{next(self.cnt)}", *([I] * len(dims)), B64)
            if dt != "uint64":
                raise Unsup("empty")
            return self.newview(dt, dims, lambda t: Word(u(*t)))
        if f == "reshape":
            v = vals[0]
            if isinstance(v, View) and v.kind == "full" and vals[1] == -1 or isinstance(v, View) and isinstance(vals[1], Int) and z3.simplify(vals[1].z).eq(z3.IntVal(-1)):
                return View(v.store, "flat" if len(v.store.dims) > 1 else "full", cast=v.cast)
            raise Unsup("np.reshape")
        if f == "frombuffer":
            v = vals[0]
            if self.dtype(kw, vals, 1) != "double" or not isinstance(v, View) or v.store.etype != "uint64":
                raise Unsup("np.frombuffer")
            return View(v.store, v.kind, v.row, "double")
        if f in ("array", "asarray"):
            v = vals[0]
            if isinstance(v, PyArr):
                dt = self.dtype(kw) if "dtype" in kw else v.etype
                return PyArr(v.dims, self.conv(v, dt), dt)
            if isinstance(v, View):
                self.mark(v)
                if v.kind == "flat" or v.kind == "full" and getattr(v.store, "flat", None):
                    return PyArr(v.dims(), None, "cells", View(v.store, v.kind, v.row, v.cast))
                if v.kind == "full":
                    return PyArr(v.dims(), v.store.fn, "cells", View(v.store, v.kind, v.row, v.cast))
            raise Unsup("np.array")
        if f == "mod":
            x, y = self.int(vals[0]), self.int(vals[1])
            return Int(z3.simplify(x % y), "py")
        raise Unsup("np." + f)

    def mark(self, v):
        for tr in self.track:
            tr.append((v.store, None, False))

    def conv(self, v, dt):
        if v.etype == dt:
            return v.fn
        if v.etype == "pyint" and dt == "uint64":
            return lambda t: Word(self.word(v.fn(t)))
        raise Unsup(f"conversion from {v.etype} to {dt}")

    def method(self, o, m, vals, kw):
        if isinstance(o, PyArr) and m == "astype":
            d = vals[0]
            if isinstance(d, Mod) and self.DT.get(d.name) == "uint64":
                return PyArr(o.dims, self.conv(o, "uint64"), "uint64")
        if isinstance(o, PyArr) and m == "reshape":
            dims = [self.int(x) for x in (vals[0] if len(vals) == 1 and isinstance(vals[0], tuple) else vals)]
            v = o.view
            if v is not None and v.kind in ("flat", "full") and len(dims) == 2 and len(v.store.dims) == 2:
                for x, y in zip(dims, v.store.dims):
                    self.prove(x == y, "the flat result is reshaped to its rows and columns")
                return PyArr(dims, v.store.fn, "cells")
            if v is not None and len(dims) == 2 and len(v.store.dims) == 1:
                self.prove(dims[0] * dims[1] == v.store.dims[0], "the flat result is reshaped to its rows and columns")
                return PyArr(dims, lambda t: v.store.fn((t[0] * dims[1] + t[1],)), "cells")
        if m == "copy" and isinstance(o, PyArr):
            return o
        raise Unsup("method " + m)

    def pyindex(self, a, ix, fr):
        if ix["_"] == "TupleNode" and len(ix["args"]) == 2 == len(a.dims) and all(x["_"] == "SliceNode" for x in ix["args"]):
            dims, lo = [], []
            for x, d in zip(ix["args"], a.dims):
                s = [self.ev(x[k], fr) if k in x and x[k] is not None and x[k]["_"] != "NoneNode" else None for k in ("start", "stop", "step")]
                if s[2] is not None:
                    raise Unsup("step")
                b = self.int(s[0]) if s[0] is not None else z3.IntVal(0)
                e = self.int(s[1]) if s[1] is not None else d
                if not self.valid(z3.And(0 <= b, b <= e, e <= d)):
                    raise Unsup("slice may be clipped")
                dims.append(z3.simplify(e - b))
                lo.append(b)
            fn = a.fn
            return PyArr(dims, lambda t: fn(tuple(z3.simplify(x + y) for x, y in zip(t, lo))), a.etype)
        raise Unsup("subscript of an array")

    # ---------------------------------------------------------------- loops
    @staticmethod
    def assigned(n, out=None):
        out = set() if out is None else out
        if isinstance(n, list):
            for x in n:
                Unit.assigned(x, out)
        elif isinstance(n, dict):
            k = n["_"]
            if k in ("SingleAssignmentNode", "InPlaceAssignmentNode") and n["lhs"]["_"] == "NameNode":
                out.add(n["lhs"]["name"])
            if k == "ForInStatNode" and n["target"]["_"] == "NameNode":
                out.add(n["target"]["name"])
            if k == "AmpersandNode" and n["operand"]["_"] == "NameNode":
                out.add(n["operand"]["name"])
            if k == "CVarDefNode":
                out.update(d["name"] for d in n["declarators"] if "default" in d)
            for v in n.values():
                if isinstance(v, (dict, list)):
                    Unit.assigned(v, out)
        return out

    def loop(self, s, fr):
        it = s["iterator"]["sequence"]
        if it["_"] != "SimpleCallNode" or it["function"].get("name") not in ("range", "prange") and it["function"].get("attribute") != "prange":
            raise Unsup("loop over something other than a range")
        if s.get("else_clause"):
            raise Unsup("for-else")
        a = [self.int(self.ev(x, fr)) for x in it["args"]]
        if len(a) == 1:
            a = [z3.IntVal(0)] + a
        if len(a) != 2:
            raise Unsup("range with a step")
        lo, hi = a
        names = self.assigned(s["body"]) | {s["target"]["name"]}
        snap = [(st, st.fn, list(st.dims)) for st in self.stores]
        nst = len(self.stores)
        env0 = dict(fr["env"])

        def restore():
            for st, f, d in snap:
                st.fn, st.dims = f, d
            del self.stores[nst:]
            fr["env"].clear()
            fr["env"].update(env0)
        why = []
        for rule in (self.parallel, self.exchange, self.fold):
            try:
                rule(s, fr, lo, hi, names)
                for n in names:
                    fr["env"][n] = Undef(n)
                return None
            except (NotParallel, CarriedRead, Unsup) as e:
                why.append(f"{rule.__name__}: {type(e).__name__} {e}")
                restore()
                if isinstance(e, CarriedRead) and isinstance(env0.get(str(e)), Undef):
                    raise
        raise Unsup(f"no rule for the loop at line {s['line']}: {'; '.join(why)[:400]}")

    def iteration(self, s, fr, lo, hi, names, keep=()):
        """executes the body once for an arbitrary iteration; returns the loop variable and the recorded accesses"""
        i = self.fresh(s["target"]["name"])
        self.solver.add(lo <= i, i < hi)
        for n in names:
            if n not in keep:
                fr["env"][n] = Undef(n)
        fr["env"][s["target"]["name"]] = Int(i, fr["types"].get(s["target"]["name"], "ssize"))
        tr = []
        self.track.append(tr)
        depth = len(self.track)
        try:
            r = self.block(s["body"], fr)
        finally:
            del self.track[depth - 1:]
        if r is not None:
            raise Unsup("return inside a loop")
        return i, tr

    def parallel(self, s, fr, lo, hi, names):
        pre = list(self.stores)
        old = {id(st): st.fn for st in pre}
        self.solver.push()
        try:
            i, tr = self.iteration(s, fr, lo, hi, names)
            plans = []
            for st in {id(x[0]): x[0] for x in tr if x[2]}.values():
                if not any(st is p for p in pre):
                    continue                      # made by this iteration
                acc = [t for x, t, w in tr if x is st]
                if any(t is None for t in acc):
                    raise NotParallel("a whole array is rewritten in every iteration")
                nd = len(acc[0])
                ax = None
                for a in range(nd):
                    if all(len(t) == nd and (t[a].eq(i) or self.valid(t[a] == i)) for t in acc):
                        ax = a
                        break
                if ax is None and nd == 2 and all(t[0].eq(acc[0][0]) and t[1].eq(acc[0][1]) for t in acc) and self.valid(acc[0][0] * st.dims[1] + acc[0][1] == i) \
                        and self.valid(lo == 0) and self.valid(hi == st.dims[0] * st.dims[1]):
                    plans.append((st, "flat", acc[0], st.fn))
                    continue
                if ax is None:
                    raise NotParallel(f"iterations share the cells of an array (line {s['line']})")
                plans.append((st, "axis", ax, st.fn))
        finally:
            self.solver.pop()
        rng = lambda x: z3.And(lo <= x, x < hi)
        for st, kind, arg, body in plans:
            o = old[id(st)]
            if kind == "axis":
                # the old cells as the (possibly just refined) index tuple sees them
                def fn(t, o=o, body=body, a=arg, nd=len(st.dims), st=st):
                    c = rng(t[a])
                    if self.valid(z3.Not(c)):
                        return o(t)
                    full = self.valid(c)
                    u = list(t)
                    u[a] = i
                    self.solver.push()
                    try:
                        self.solver.add(rng(i), i == t[a])
                        v = body(tuple(u))
                    finally:
                        self.solver.pop()
                    v = self.subst(v, [(i, t[a])])
                    return v if full else self.ite(c, v, o(t))
            else:
                q, r = arg

                def fn(t, o=o, body=body, q=q, r=r, st=st):
                    self.solver.push()
                    try:
                        self.solver.add(rng(i), q == t[0], r == t[1], i == t[0] * st.dims[1] + t[1])
                        v = body((q, r))
                    finally:
                        self.solver.pop()
                    return self.subst(v, [(q, t[0]), (r, t[1]), (i, t[0] * st.dims[1] + t[1])])
            st.fn = fn
        self.done("iterations of a loop touch disjoint cells")

    def exchange(self, s, fr, lo, hi, names):
        """every iteration exchanges two cells of one row"""
        pre = list(self.stores)
        old = {id(st): (st, st.fn) for st in pre}
        self.solver.push()
        try:
            i, tr = self.iteration(s, fr, lo, hi, names)
            w = list({id(x[0]): x[0] for x in tr if x[2]}.values())
            if len(w) != 1:
                raise Unsup("an exchange touches one array")
            st = w[0]
            body = st.fn
            acc = [t for x, t, ww in tr if x is st and ww]
            if any(t is None or len(t) != 2 for t in acc) or len(acc) != 2:
                raise Unsup("an exchange writes two cells")
            row = acc[0][0]
            if not all(self.valid(t[0] == row) for x, t, _ in tr if x is st) or i.sexpr() in [c for c in consts(row)]:
                raise Unsup("the exchanged cells are in one row")
        finally:
            self.solver.pop()
        # the same body on arbitrary contents
        for _, (x, f) in old.items():
            x.fn = f
        content = z3.Function(f"row{next(self.cnt)}", I, I)
        st.fn = lambda t: Int(content(t[1]), st.etype)
        self.solver.push()
        try:
            i, tr = self.iteration(s, fr, lo, hi, names)
            body = st.fn
            acc = [t for x, t, ww in tr if x is st and ww]
            p, q = acc[0][1], acc[1][1]
            for x in (p, q):
                if apps(x, content.name()):
                    raise Unsup("positions depend on the contents")
            name = "each step exchanges two cells of the row"
            self.prove(self.int(body((row, p))) == content(q), name)
            self.prove(self.int(body((row, q))) == content(p), name)
            k = self.fresh("k")
            self.solver.add(k != p, k != q)
            self.prove(self.int(body((row, k))) == content(k), name)
        finally:
            self.solver.pop()
        _, f = old[id(st)]
        g = z3.Function(f"permuted{next(self.cnt)}", I, I, I)
        rec = dict(fn=f, sym=g, p=p, q=q, i=i, lo=lo, hi=hi, row=row, width=st.dims[1], line=s["line"])
        self.perms.setdefault(self.prefix, []).append(rec)

        def fn(t, f=f, row=row):
            if self.valid(t[0] == row):
                return Int(g(t[0], t[1]), st.etype)
            return f(t)
        st.fn = fn

    def fold(self, s, fr, lo, hi, names):
        """the loop over the modes: flat numbers of multi-indices"""
        F = self.facts
        if F is None:
            raise Unsup("no contract for a sequential loop here")
        pre = list(self.stores)
        old = {id(st): (st, st.fn) for st in pre}
        env0 = dict(fr["env"])
        carried, hav = {}, {}
        for attempt in range(6):
            for x, f in old.values():
                x.fn = f
            fr["env"].clear()
            fr["env"].update(env0)
            for n, v in carried.items():
                fr["env"][n] = v
            for st, f in hav.values():
                st.fn = lambda t, f=f: Word(f(*t))
            self.solver.push()
            try:
                i, tr = self.iteration(s, fr, lo, hi, names, keep=carried)
                more = [x for x in {id(x[0]): x[0] for x in tr if x[2]}.values() if id(x) in old and id(x) not in hav]
                if more:
                    for x in more:
                        if x.etype != "uint64" or len(x.dims) != 1:
                            raise Unsup("loop-carried array")
                        hav[id(x)] = (x, z3.Function(f"flat{next(self.cnt)}", I, B64))
                    continue
                break
            except CarriedRead as e:
                n = str(e)
                if n in carried or not isinstance(env0.get(n), Word):
                    raise Unsup(f"loop-carried variable {n}")
                carried[n] = Word(self.fresh(n, B64))
            finally:
                self.solver.pop()
        else:
            raise Unsup("loop-carried state")
        if len(carried) != 1 or len(hav) != 1:
            raise Unsup("the loop carries other things than a product and a flat number")
        (pn, pv), = carried.items()
        (st, f), = hav.values()
        newp = fr["env"][pn]
        k = self.fresh("col")
        self.solver.push()
        try:
            self.solver.add(k >= 0, k < st.dims[0], lo <= i, i < hi)
            newf = st.fn((k,))
        finally:
            self.solver.pop()
        # integers behind the words
        P, Fk, S, X, Fl, X2 = z3.Ints("P Fk S X Fl X2")
        ind, shp = F["ind"], F["shape"]
        pairs = [(pv.z, P), (f(k), Fk), (WORDOF(z3.simplify(ind(i, k))), X), (WORDOF(z3.simplify(shp(i))), S)]
        inv = [P >= 1, S >= 1, Fk >= 0, Fk < P, X >= 0, X < S, P * S < 2**64, X * P <= (S - 1) * P, Fk + X * P < P * S]
        sol = z3.Solver()
        sol.set("timeout", 15000)

        def ask(c):
            t = time.time()
            sol.push()
            sol.add(z3.Not(c))
            r = sol.check()
            sol.pop()
            self.z3t += time.time() - t
            self.queries += 1
            return r
        # the products occurring in inv are consequences of the bounds; checked first
        sol.add(P >= 1, S >= 1, Fk >= 0, Fk < P, X >= 0, X < S, P * S < 2**64)
        for c in inv[7:]:
            # (S-1-X)*P >= 0 and Fk < P
            sol.push()
            sol.add((S - 1 - X) * P >= 0)
            if ask(c) != z3.unsat:
                sol.pop()
                raise Unsup("arithmetic lemma")
            sol.pop()
        sol.add(*inv[7:], P * X >= 0, P * S >= P)

        def toint(e):
            for b, z in pairs:
                if e.eq(b):
                    return z
            if z3.is_bv_value(e):
                return z3.IntVal(e.as_long())
            kd = e.decl().kind()
            if kd in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
                a = [toint(c) for c in e.children()]
                r = a[0]
                for x in a[1:]:
                    r = r + x if kd == z3.Z3_OP_BADD else r * x
                    rr = ask(z3.And(r >= 0, r < 2**64))
                    if rr == z3.sat:
                        raise Fail("flat numbers stay below 2^64", f"{e} may wrap around")
                    if rr != z3.unsat:
                        raise Unsup("range of a product")
                return r
            raise Unsup(f"term {str(e)[:80]} in the loop over the modes")
        ip, jf = toint(newp.z), toint(newf.z)
        nm = "mixed-radix invariant of the loop over the modes: flat number below the product of the mode sizes, one number per multi-index"
        loose = LOOSE
        for c in (ip == P * S, jf >= 0, jf < P * S):
            r = ask(c)
            if r == z3.sat:
                raise Fail(nm, f"{c} is not preserved", loose)
            if r != z3.unsat:
                raise Unsup(f"z3 does not decide {c}")
        # injectivity of one step: second column with the same P, S
        G = z3.substitute(jf, (Fk, Fl), (X, X2))
        sol.push()
        sol.add(Fl >= 0, Fl < P, X2 >= 0, X2 < S)
        for a, b in ((X, X2), (X2, X)):
            sol.add(z3.Implies(a < b, (b - a) * P >= P))
        sol.add(z3.Implies(X == X2, X * P == X2 * P))
        sol.add((X - X2) * P == X * P - X2 * P)
        r = ask(z3.Implies(jf == G, z3.And(Fk == Fl, X == X2)))
        sol.pop()
        if r == z3.sat:
            raise Fail(nm, "two multi-indices get one flat number", loose)
        if r != z3.unsat:
            raise Unsup("z3 does not decide the injectivity of the flat number")
        # the invariant holds initially, and the loop runs over all modes
        pi, fi = env0[pn].z, old[id(st)][1]((k,))
        self.solver.push()
        try:
            self.solver.add(k >= 0, k < st.dims[0])
            if self.valid(lo == 1):
                ok = z3.And(pi == WORDOF(z3.simplify(shp(z3.IntVal(0)))), fi.z == WORDOF(z3.simplify(ind(z3.IntVal(0), k))))
            elif self.valid(lo == 0):
                ok = z3.And(pi == z3.BitVecVal(1, 64), fi.z == z3.BitVecVal(0, 64))
            else:
                raise Unsup("first mode of the loop")
            r, m = self.check(z3.Not(ok))
            if r == z3.sat:
                raise Fail(nm, "does not hold initially", loose)
            if r != z3.unsat:
                raise Unsup("initial invariant")
            r, m = self.check(hi != F["d"])
            if r == z3.sat:
                raise Fail(nm, "the loop does not run over all modes", loose)
        finally:
            self.solver.pop()
        self.done(nm)
        canon = z3.substitute(jf, (k, z3.Int("col")))
        prev = self.folds.get("step")
        if prev is not None and not prev.eq(canon):
            raise Unsup("different flat numbers in two runs")
        self.folds["step"] = canon
        key = z3.Function(f"key{self.prefix}", I, B64)
        self.folds[self.prefix] = key
        for x, ff in old.values():
            x.fn = ff
        st.fn = lambda t: Word(key(t[0]))
        fr["env"].clear()
        fr["env"].update(env0)
