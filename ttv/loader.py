"""Loads the real modules of /repo's scratch copy with symbolic libraries.

The source is parsed on every run and executed as it is, except for this mechanical rewriting (nothing is dropped):
  * `for` loops over a sequence of symbolic length become cut points (loop contract), loops over ordinary
    sequences run natively;
  * list/tuple/generator comprehensions with one generator are routed through a map over the sequence;
  * `in` / `not in`, built-in names (len, range, zip, enumerate, ...) are routed to versions that accept symbolic values;
  * decorators, defaults, generators, classes: unchanged.
"""
from __future__ import annotations
import ast, builtins, os, sys, types
import z3
from . import snp
from . import seqs
from . import arr as A
from .arr import Arr, SymScalar, OpaqueBool
from .core import cx, Z, mk, SymInt, SymBool, Unsupported, isint, smin, smax, PathDone
from .seqs import Seq, Gen, mkseq


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.stack = []
        self.count = {}

    def _fn(self, node):
        self.stack.append(node.name)
        node = self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._fn(node)

    def visit_ClassDef(self, node):
        return self._fn(node)

    def visit_AnnAssign(self, node):
        node = self.generic_visit(node)
        return node

    def visit_For(self, node):
        q = ".".join(self.stack)
        n = self.count.get(q, 0)
        self.count[q] = n + 1
        import copy
        orig = copy.deepcopy(node.body)       # before the loops in it are replaced
        node = self.generic_visit(node)
        if node.orelse:
            return node
        names = sorted({x.id for x in ast.walk(ast.Module(node.body, [])) if isinstance(x, ast.Name)} |
                       {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)})
        assigned = sorted({x.id for x in ast.walk(ast.Module(orig, [])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        lv = f"_vl{len(self.stack)}_{n}"
        ld = lambda i: ast.Name(i, ast.Load())
        targets = sorted({x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)})
        escapes = escaping(orig)
        mutated, carried = mutations(orig), [x for x in read_first(orig) if x in assigned and x not in targets]
        lst = lambda xs: ast.List([ast.Constant(a) for a in xs], ast.Load())
        body, outs, mk_body = ast.Constant(None), [], []
        if getattr(self, "fnlocals", None) and not escapes and not carried:
            outs = appended(node.body)
            if outs and set(outs) == set(mutated):
                fn = f"_vb{len(self.stack)}_{n}"
                mk_body, body = [append_body(fn, node.target, node.body, outs)], ld(fn)
            else:
                outs = []
        pre = mk_body + [ast.Assign([ast.Name(lv, ast.Store())],
                          ast.Call(ld("__VLOOP__"), [ast.Constant(q), ast.Constant(n), node.iter,
                                                     ast.Call(ld("__VLOCALS__"), [], []),
                                                     lst(assigned), lst(targets), ast.Constant(escapes), lst(mutated), lst(carried), body, lst(outs)], []))]
        local = [a for a in names if a not in ("self",)]
        node.body = self._breaks(node.body, lv, local)
        node.iter = ast.Call(ast.Attribute(ld(lv), "items", ast.Load()), [], [])
        top = ast.Expr(ast.Call(ast.Attribute(ld(lv), "top", ast.Load()), [ast.Call(ld("__VLOCALS__"), [], [])], []))
        node.body = [top] + self._havoc([a for a in local if a not in targets], lv) + node.body
        node.orelse = [ast.Expr(ast.Call(ast.Attribute(ld(lv), "after", ast.Load()), [ast.Call(ld("__VLOCALS__"), [], [])], []))] + \
            self._havoc(local, lv)
        return pre + self._havoc(local, lv) + [node]

    def visit_While(self, node):
        """with a contract: a cut point; without: an ordinary loop"""
        import copy
        q = ".".join(self.stack)
        n = self.count.get((q, "while"), 0)
        self.count[(q, "while")] = n + 1
        node = self.generic_visit(node)
        if node.orelse or not self._infn():
            return node
        names = sorted({x.id for x in ast.walk(ast.Module(node.body, [])) if isinstance(x, ast.Name)} |
                       {x.id for x in ast.walk(node.test) if isinstance(x, ast.Name)})
        assigned = sorted({x.id for x in ast.walk(ast.Module(node.body, [])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)
                           and not x.id.startswith("_v")})
        lw = f"_vw{len(self.stack)}_{n}"
        ld = lambda i: ast.Name(i, ast.Load())
        lst = lambda xs: ast.List([ast.Constant(a) for a in xs], ast.Load())
        locs = lambda: ast.Call(ld("__VLOCALS__"), [], [])
        leaves = escaping(node.body) or any(isinstance(x, ast.Continue) for x in own_level(node.body))
        make = ast.Assign([ast.Name(lw, ast.Store())], ast.Call(ld("__VWHILE__"), [
            ast.Constant(q), ast.Constant(n), locs(), lst(assigned), ast.Constant(leaves), lst(mutations(node.body)),
            lst([x for x in read_first([ast.Expr(node.test)] + node.body) if x in assigned])], []))
        cut = []
        if not leaves:
            test, body = copy.deepcopy(node.test), copy.deepcopy(node.body)
            cut = self._havoc(names, lw) + [
                ast.If(test, body + [ast.Expr(ast.Call(ast.Attribute(ld(lw), "after", ast.Load()), [locs()], []))], []),
                ast.Expr(ast.Call(ast.Attribute(ld(lw), "done", ast.Load()), [], []))]
        return [make, ast.If(ast.Attribute(ld(lw), "native", ast.Load()), [node], cut or [ast.Pass()])]

    def _breaks(self, body, lv, local):
        """tells the loop before it is left by a break"""
        out = []
        for x in body:
            if isinstance(x, ast.Break):
                ld = lambda i: ast.Name(i, ast.Load())
                out.append(ast.Expr(ast.Call(ast.Attribute(ld(lv), "brk", ast.Load()), [ast.Call(ld("__VLOCALS__"), [], [])], [])))
                out += self._havoc(local, lv)
            elif isinstance(x, ast.If):
                x.body, x.orelse = self._breaks(x.body, lv, local), self._breaks(x.orelse, lv, local)
            elif isinstance(x, ast.With):
                x.body = self._breaks(x.body, lv, local)
            out.append(x)
        return out

    def _infn(self):
        return bool(self.stack)

    def _havoc(self, local, lv):
        if not self._infn():
            return []
        ld = lambda i: ast.Name(i, ast.Load())
        keep = [a for a in local if a in self.fnlocals[-1]] if getattr(self, "fnlocals", None) else []
        return [ast.If(ast.Call(ast.Attribute(ld(lv), "has", ast.Load()), [ast.Constant(a)], []),
                       [ast.Assign([ast.Name(a, ast.Store())],
                                   ast.Call(ast.Attribute(ld(lv), "get", ast.Load()), [ast.Constant(a)], []))], [])
                for a in keep]

    # comprehension -> map
    def _comp(self, node, kind):
        node = self.generic_visit(node)
        if len(node.generators) != 1:
            return node
        g = node.generators[0]
        if g.is_async:
            return node
        it = g.iter
        tmp = ast.Name("__it", ast.Load())
        # native comprehension for ordinary sequences, map for symbolic ones
        if g.ifs:
            # the elements that pass the filter, then the map over them
            test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), list(g.ifs))
            flt = ast.Lambda(ast.arguments([], [ast.arg("__it")], None, [], [], None, []),
                             ast.Subscript(self._single(test, g.target), ast.Constant(0), ast.Load()))
            it = ast.Call(ast.Name("__VFILTER__", ast.Load()), [flt, it], [])
        fn = ast.Lambda(ast.arguments([], [ast.arg("__it")], None, [], [], None, []),
                        ast.Subscript(self._single(node.elt, g.target), ast.Constant(0), ast.Load()))
        return ast.Call(ast.Name("__VMAP__", ast.Load()), [ast.Constant(kind), fn, it], [])

    def _single(self, elt, target):
        # [elt for target in (__it,)]
        return ast.ListComp(elt, [ast.comprehension(target, ast.Tuple([ast.Name("__it", ast.Load())], ast.Load()), [], 0)])

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async or node.generators[0].ifs:
            return node
        g = node.generators[0]
        fn = ast.Lambda(ast.arguments([], [ast.arg("__it")], None, [], [], None, []),
                        ast.Subscript(self._single(ast.Tuple([node.key, node.value], ast.Load()), g.target), ast.Constant(0), ast.Load()))
        return ast.Call(ast.Name("__VDICT__", ast.Load()), [fn, g.iter], [])

    def visit_SetComp(self, node):
        return ast.Call(ast.Name("set", ast.Load()), [self._comp(ast.ListComp(node.elt, node.generators), "list")], [])

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return ast.Call(ast.Name("set", ast.Load()), [ast.List(node.elts, ast.Load())], [])

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            c = ast.Call(ast.Name("__VIS__", ast.Load()), [node.left, node.comparators[0]], [])
            return c if isinstance(node.ops[0], ast.Is) else ast.UnaryOp(ast.Not(), c)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("__VIN__", ast.Load()), [node.left, node.comparators[0]], [])
            return c if isinstance(node.ops[0], ast.In) else ast.UnaryOp(ast.Not(), c)
        return node


def appended(body):
    """the lists to which the statements append exactly one element each, at their own level, and do nothing else with; [] if they may do something else"""
    outs = []
    for x in body:
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "append" and \
                isinstance(x.value.func.value, ast.Name) and len(x.value.args) == 1 and not x.value.keywords:
            outs.append(x.value.func.value.id)
    if len(set(outs)) != len(outs):
        return []
    uses = {}
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, (ast.Continue, ast.Global, ast.Nonlocal, ast.Delete, ast.With, ast.Import, ast.ImportFrom)):
                return []
            if isinstance(x, ast.Name):
                uses[x.id] = uses.get(x.id, 0) + 1
    return outs if all(uses[a] == 1 for a in outs) else []


def append_body(fn, target, body, outs):
    """the loop body as a function of the element: it returns what it appends"""
    import copy
    new = [ast.Assign([copy.deepcopy(target)], ast.Name("__it", ast.Load()))]
    for x in body:
        y = copy.deepcopy(x)
        if isinstance(y, ast.Expr) and isinstance(y.value, ast.Call) and isinstance(y.value.func, ast.Attribute) and y.value.func.attr == "append" and \
                isinstance(y.value.func.value, ast.Name) and y.value.func.value.id in outs:
            y = ast.Assign([ast.Name(f"_vo_{y.value.func.value.id}", ast.Store())], y.value.args[0])
        new.append(y)
    new.append(ast.Return(ast.Tuple([ast.Name(f"_vo_{a}", ast.Load()) for a in outs], ast.Load())))
    return ast.FunctionDef(fn, ast.arguments([], [ast.arg("__it")], None, [], [], None, []), new, [])


def mutations(body):
    """names of locals whose object the statements change (append, extend, element assignment)"""
    out = set()
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                    x.func.attr in ("append", "extend", "insert", "pop", "remove", "clear", "reverse", "sort"):
                y = x.func.value
                while isinstance(y, (ast.Subscript, ast.Attribute)):
                    y = y.value
                if isinstance(y, ast.Name):
                    out.add(y.id)
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                y = x
                while isinstance(y, (ast.Subscript, ast.Attribute)):
                    y = y.value
                if isinstance(y, ast.Name):
                    out.add(y.id)
    return sorted(out)


def read_first(body):
    """names that may be read before they are assigned, in the order they are first read"""
    out = []

    def read(x, done):
        if x not in done and x not in out:
            out.append(x)

    def inner(n, done):
        """the names that a nested function or comprehension reads"""
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                read(x.id, done)

    def ev(n, done):
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                read(n.id, done)
            else:
                done.add(n.id)
        elif isinstance(n, ast.Assign):
            ev(n.value, done)
            for t in n.targets:
                ev(t, done)
        elif isinstance(n, ast.AugAssign):
            ev(n.value, done)
            if isinstance(n.target, ast.Name):
                read(n.target.id, done)
            ev(n.target, done)
        elif isinstance(n, ast.AnnAssign):
            if n.value:
                ev(n.value, done)
                ev(n.target, done)
        elif isinstance(n, (ast.If, ast.IfExp)):
            ev(n.test, done)
            ends = []
            for br in (n.body, n.orelse):
                d = set(done)
                br = br if isinstance(br, list) else [br]
                for x in br:
                    ev(x, d)
                if not (br and isinstance(br[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))):
                    ends.append(d)
            if ends:
                done |= set.intersection(*ends)
        elif isinstance(n, (ast.For, ast.While)):
            d = set(done)
            if isinstance(n, ast.For):
                ev(n.iter, done)
                d = set(done)
                ev(n.target, d)
            else:
                ev(n.test, done)
                d = set(done)
            for x in n.body:
                ev(x, d)
            # the statements after it may follow zero iterations
            for x in n.orelse:
                ev(x, done)
        elif isinstance(n, (ast.BoolOp,)):
            ev(n.values[0], done)
            for x in n.values[1:]:
                ev(x, set(done))
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            tg = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            inner(n, done | tg)
        elif isinstance(n, ast.Lambda):
            inner(n, done | {a.arg for a in n.args.args})
        elif isinstance(n, ast.FunctionDef):
            inner(n, done | {a.arg for a in n.args.args} | fn_locals(n))
            done.add(n.name)
        elif isinstance(n, ast.Try):
            d = set(done)
            for x in n.body + n.orelse:
                ev(x, d)
            ends = [d]
            for h in n.handlers:        # an exception may come before any of the body's assignments
                d = set(done) | {h.name}
                if h.type is not None:
                    ev(h.type, d)
                for x in h.body:
                    ev(x, d)
                if not isinstance(h.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                    ends.append(d - {h.name})
            done |= set.intersection(*ends)
            for x in n.finalbody:
                ev(x, done)
        else:
            for x in ast.iter_child_nodes(n):
                ev(x, done)
    done = set()
    for b in body:
        ev(b, done)
    return out


def escaping(body):
    """the statements leave the loop other than by finishing an iteration (return, break, yield)"""
    st = list(body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(x, (ast.Return, ast.Break, ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.For, ast.While)):
            # a break inside belongs to the inner loop
            st.extend(y for b in x.body for y in ast.walk(b) if isinstance(y, (ast.Return, ast.Yield, ast.YieldFrom)))
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


def own_level(body):
    """the statements of a loop body that are not in a loop or function inside it"""
    st = list(body)
    while st:
        x = st.pop()
        yield x
        if not isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(x))


def fn_locals(node):
    """names that are local to a function (parameters and assigned names, not in nested functions)"""
    out = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
    for x in (node.args.vararg, node.args.kwarg):
        if x:
            out.add(x.arg)

    def walk(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                if not isinstance(ch, ast.Lambda):
                    out.add(ch.name)
                continue
            if isinstance(ch, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                continue
            if isinstance(ch, ast.Name) and isinstance(ch.ctx, ast.Store):
                out.add(ch.id)
            walk(ch)
    walk(node)
    return out


class Rewriter2(Rewriter):
    def __init__(self):
        super().__init__()
        self.fnlocals = []

    def visit_FunctionDef(self, node):
        import copy
        q = ".".join(self.stack + [node.name])
        gen = is_generator(node)
        if gen:
            # a second version that collects what the generator yields, for contracts that ask for it
            eager = collecting(copy.deepcopy(node))
            n0 = dict(self.count)
            self.fnlocals.append(fn_locals(eager))
            eager = self._fn(eager)
            self.fnlocals.pop()
            self.count = n0
            eager.name = f"_ve_{node.name}"
        self.fnlocals.append(fn_locals(node))
        r = self._fn(node)
        self.fnlocals.pop()
        if gen:
            ld = lambda i: ast.Name(i, ast.Load())
            r.decorator_list.append(ast.Call(ld("__VGEN__"), [ld(eager.name), ast.Constant(q)], []))
            return [eager, r]
        return r


def own_code(node):
    """the nodes of a function that are not in a function inside it"""
    st = list(node.body)
    while st:
        x = st.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(x))


def is_generator(node):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_code(node))


class _Collect(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        return node
    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Return(self, node):
        return ast.Return(ast.Name("_vy", ast.Load()))

    def visit_Expr(self, node):
        if isinstance(node.value, (ast.Yield, ast.YieldFrom)):
            f = "append" if isinstance(node.value, ast.Yield) else "extend"
            return ast.Expr(ast.Call(ast.Attribute(ast.Name("_vy", ast.Load()), f, ast.Load()), [node.value.value or ast.Constant(None)], []))
        return node


def collecting(node):
    node.body = [ast.Assign([ast.Name("_vy", ast.Store())], ast.List([], ast.Load()))] + [_Collect().visit(x) for x in node.body] + \
        [ast.Return(ast.Name("_vy", ast.Load()))]
    node.decorator_list = []
    node.returns = None
    return node


class Poison:
    def __init__(self, n):
        object.__setattr__(self, "_n", n)

    def _bad(self, *a, **k):
        raise Unsupported(f"local '{object.__getattribute__(self, '_n')}' after a symbolic loop is not given by the loop contract")

    def __getattribute__(self, n):
        if n in ("_bad", "__class__"):
            return object.__getattribute__(self, n)
        object.__getattribute__(self, "_bad")()

    __call__ = __getitem__ = __add__ = __radd__ = __mul__ = __rmul__ = __iter__ = __len__ = __bool__ = __eq__ = __lt__ = \
        __gt__ = __matmul__ = __sub__ = __truediv__ = __neg__ = lambda self, *a: object.__getattribute__(self, "_bad")()


class Loop:
    """One execution of a `for` statement."""

    def __init__(self, eng, qual, ordinal, it, locs, assigned, targets=(), escapes=False, mutated=(), carried=(), body=None, outs=()):
        self.eng, self.qual, self.ordinal = eng, qual, ordinal
        self.mutated, self.carried = mutated, carried
        self.targets = targets
        self.mode = "native"
        self.env = {}
        if isinstance(it, Arr):
            n = A.vsize(it.axes[0])
            if not z3.is_int_value(n):
                it = it.rows()
        if isinstance(it, Seq) and it.concrete():
            it = it.tolist()
        if not isinstance(it, Seq):
            self.it = it
            return
        spec = eng.loops.get((qual, ordinal)) or eng.loops.get(qual)
        if spec is None:
            if escapes:
                raise Unsupported(f"no contract for loop {ordinal} of {qual}")
            from .maploop import MapLoop, append_loop
            if body is not None:
                self.mode = "exit"
                self.env = append_loop(self, it, locs, assigned, targets, body, outs)
                return
            self.mode = "map"
            self.map = MapLoop(self, it, locs, assigned, targets)
            return
        self.spec = spec
        self.seq = it
        self.n = it.zlen()
        self.assigned = assigned
        self.pre = dict(locs)
        # establish at 0
        spec.enter(self, locs)
        spec = self.spec
        eng.cut(self)
        c = cx.choose(2, ("loop", qual, ordinal))
        self.born = A.Store().id
        if c == 0:
            self.mode = "step"
            self.w0 = len(cx.wlog)
            self.frame = self._frame(locs)
            self.k = z3.Int(cx.fresh("k"))
            cx.assume(z3.And(self.k >= 0, self.k < self.n))
            cx.loop_stack.append(self)
            self.env = spec.state(self, self.k)
        else:
            self.mode = "exit"
            cx.assume(self.n >= 0)
            self.k = self.n
            self.env = spec.state(self, self.n)
        for a in assigned:
            if a not in self.env:
                self.env[a] = Poison(a)

    def has(self, n):
        return n in self.env

    def get(self, n):
        return self.env[n]

    def items(self):
        if self.mode == "native":
            return self.it
        if self.mode == "exit":
            return ()
        if self.mode == "map":
            return self.map.items()
        return self._one()

    def _one(self):
        yield self.seq.at(self.k)

    def top(self, locs):
        if self.mode == "map":
            self.map.top(locs)

    def brk(self, locs):
        if self.mode == "step":
            f = getattr(self.spec, "broke", None)
            if f is None:
                raise Unsupported(f"loop {self.ordinal} of {self.qual} is left by a break")
            self._writes()
            self.env = f(self, locs, z3.simplify(self.k + 1))
            cx.loop_stack.pop()

    def _writes(self):
        for a, _, _ in cx.wlog[self.w0:]:
            if a.store.id < self.born:
                raise Unsupported(f"the body of loop {self.ordinal} of {self.qual} writes an array that its contract does not mention")
        self._frame_check()

    def after(self, locs):
        if self.mode == "map":
            self.map.after(locs)
        if self.mode == "step":
            self._writes()
            self.spec.check(self, locs, z3.simplify(self.k + 1))
            cx.loop_stack.pop()
            raise PathDone()


    # objects that the loop contract does not give must not change
    def _frame(self, locs):
        from .env import walk
        from .symenv import _versions
        own = self.mutated if getattr(self.spec, "owns", False) else ()
        keep = {a: v for a, v in locs.items() if a not in self.assigned and a not in self.targets and a not in own and not a.startswith(("_vl", "_vw")) and type(v) is not Poison}
        for m in own:
            if m in locs and any(locs[m] is v for a, v in locs.items() if a != m):
                raise Unsupported("the changed object has two names")
        return keep, tuple((k, _versions(walk(v, set()))) for k, v in sorted(keep.items()))

    def _frame_check(self):
        from .env import walk, same_walk
        from .symenv import _leafeq
        keep, old = self.frame
        bad = same_walk(old, tuple((k, walk(v, set())) for k, v in sorted(keep.items())), _leafeq)
        if bad:
            raise Unsupported(f"the body of loop {self.ordinal} of {self.qual} changes an object that its contract does not mention")


class WhileLoop(Loop):
    """One execution of a `while` statement with a contract: enter(loop, locals) holds on entry, the locals are replaced by those of
    state(loop, None); check(loop, locals, None) after the body; the code after the loop runs in the state in which the test is false."""

    def __init__(self, eng, qual, ordinal, locs, assigned, escapes, mutated, carried):
        self.eng, self.qual, self.ordinal = eng, qual, f"while {ordinal}"
        self.mutated, self.carried, self.targets, self.assigned = mutated, carried, (), assigned
        self.env, self.mode = {}, "native"
        spec = eng.loops.get((qual, "while", ordinal))
        self.native = spec is None
        if self.native:
            return
        if escapes:
            raise Unsupported(f"the while loop of {qual} is left from its body")
        self.spec, self.mode = spec, "step"
        self.pre = dict(locs)
        spec.enter(self, locs)
        eng.cut(self)
        self.born = A.Store().id
        self.w0 = len(cx.wlog)
        self.frame = self._frame(locs)
        cx.loop_stack.append(self)
        self.env = spec.state(self, None)
        for a in assigned:
            if a not in self.env:
                self.env[a] = Poison(a)

    def after(self, locs):
        self._writes()
        self.spec.check(self, locs, None)
        cx.loop_stack.pop()
        raise PathDone()

    def done(self):
        cx.loop_stack.pop()


class LoopSpec:
    """Contract of a loop: state(loop,k) gives the locals at the start of iteration k (ghost-defined values);
    check(loop, locals, k) proves that the actual locals have the properties of state k; enter = check at 0."""

    def __init__(self, state, check):
        self._state, self._check = state, check

    def enter(self, loop, locs):
        self._check(loop, locs, z3.IntVal(0))

    def state(self, loop, k):
        return self._state(loop, k)

    def check(self, loop, locs, k):
        self._check(loop, locs, k)


class Eng:
    def __init__(self, root):
        self.root = root
        self.loops = {}
        self.eager = set()       # generator functions whose elements are collected in a list
        self.cursors = {}        # for each of these lists of symbolic length: itself, the next element
        self.reset()

    def cut(self, loop):
        pass

    def reset(self):
        for k in [k for k in sys.modules if k.startswith("tt_sketch")]:
            del sys.modules[k]
        self.mods = {}
        self.libs = snp.build()
        self.stubs = {}
        self.patches = {}
        self.procid = 0

    # ------------------------------------------------------------- builtins
    def builtin_ns(self):
        b = dict(builtins.__dict__)

        def vlen(x):
            if isinstance(x, Seq):
                return mk(x.zlen())
            if isinstance(x, Arr):
                if isinstance(x, snp.Rows):
                    return len(x.rowlist)
                if not x.axes:
                    raise TypeError("len() of unsized object")
                return mk(x.zlen())
            return len(x)

        def vrange(*a):
            a = [A.scalar_of(x) for x in a]
            if all(isinstance(x, int) for x in a):
                return range(*a)
            lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
            lo2, hi2 = z3.simplify(Z(lo)), z3.simplify(Z(hi))
            if z3.is_int_value(lo2) and z3.is_int_value(hi2):
                return range(lo2.as_long(), hi2.as_long(), st)
            return seqs.rangeseq(lo, hi, st)

        def sym(x):
            return isinstance(x, Seq) or (isinstance(x, Arr) and not z3.is_int_value(A.vsize(x.axes[0])) and not isinstance(x, snp.Rows))

        def toseq(x):
            return x.rows() if isinstance(x, Arr) else x

        def vzip(*xs, strict=False):
            if any(sym(x) for x in xs):
                return seqs.zipseq([toseq(x) if sym(x) else list(x) for x in xs], strict)
            return zip(*xs, strict=strict)

        def venum(x, start=0):
            if sym(x):
                return seqs.enumseq(toseq(x), start)
            return enumerate(x, start)

        def vsum(x, start=0):
            if isinstance(x, Seq):
                return seqs.sumseq(x, start)
            r = start
            for v in x:
                r = r + v
            return r

        def vmin(*a, **k):
            if k:
                raise Unsupported("min with key")
            if len(a) == 1:
                a = list(a[0])
            if any(isinstance(x, (SymInt,)) for x in a):
                return smin(*a)
            if any(isinstance(x, (SymScalar, Arr)) for x in a):
                raise Unsupported("min of reals")
            return min(*a)

        def vmax(*a, **k):
            if k:
                raise Unsupported("max with key")
            if len(a) == 1:
                a = list(a[0])
            if any(isinstance(x, (SymInt,)) for x in a):
                return smax(*a)
            if any(isinstance(x, (SymScalar, Arr)) for x in a):
                raise Unsupported("max of reals")
            return max(*a)

        def vrev(x):
            if isinstance(x, Seq):
                return seqs.rev(x)
            return reversed(x)

        def visinstance(x, t):
            if isinstance(t, tuple):
                return any(visinstance(x, u) for u in t)
            if t is VInt or t is int:
                return isint(x)
            if t is VList or t is list:
                return isinstance(x, list) or (isinstance(x, Seq) and x.kind == "list")
            if t is VTuple or t is tuple:
                return isinstance(x, tuple) or (isinstance(x, Seq) and x.kind == "tuple")
            if t is VSet:
                return isinstance(x, (set, frozenset, SymSet))
            if t is VFloat or t is float:
                return isinstance(x, (float, SymScalar))
            return isinstance(x, t)

        class M(type):
            def __instancecheck__(cls, x):
                return visinstance(x, cls)

        class VInt(metaclass=M):
            def __new__(cls, x=0, *a):
                x = A.scalar_of(x)
                if isinstance(x, SymInt):
                    return x
                if isinstance(x, SymScalar):
                    raise Unsupported("int() of a real")
                return int(x, *a) if a else int(x)

        class VFloat(metaclass=M):
            def __new__(cls, x=0.0):
                x = A.scalar_of(x)
                if isinstance(x, (SymScalar,)):
                    return x
                if isinstance(x, SymInt):
                    return SymScalar.of(x)
                return float(x)

        class VList(metaclass=M):
            def __new__(cls, x=()):
                if sym(x):
                    s = toseq(x)
                    return Seq(s.parts, "list")
                return list(x)

        class VTuple(metaclass=M):
            def __new__(cls, x=()):
                if isint(x) or isinstance(x, SymInt):
                    raise TypeError("'int' object is not iterable")
                if sym(x):
                    s = toseq(x)
                    return Seq(s.parts, "tuple")
                return tuple(x)

        class SymSet(list):
            """set with symbolic members: pairwise different on this path"""
            def add(self, x):
                for y in self:
                    if x is y or x == y:
                        return
                self.append(x)

        class VSet(metaclass=M):
            def __new__(cls, x=()):
                if sym(x):
                    raise Unsupported("set of a symbolic sequence")
                x = list(x)
                if not any(isinstance(v, SymInt) for v in x):
                    return set(x)
                r = SymSet()
                for v in x:
                    r.add(v)
                return r

        def vbool(x):
            return True if x else False

        def vmap(f, x, *r):
            if r or sym(x):
                raise Unsupported("map")
            return map(f, x)

        def vall(x):
            if isinstance(x, Seq):
                return seqs.holds_for(x, True)
            for v in x:
                if not v:
                    return False
            return True

        def vany(x):
            if isinstance(x, Seq):
                return seqs.holds_for(x, False)
            for v in x:
                if v:
                    return True
            return False

        def vabs(x):
            return abs(x)

        b.update(len=vlen, range=vrange, zip=vzip, enumerate=venum, sum=vsum, min=vmin, max=vmax, reversed=vrev,
                 isinstance=visinstance, int=VInt, float=VFloat, list=VList, tuple=VTuple, set=VSet, frozenset=VSet, bool=vbool, map=vmap, all=vall, any=vany,
                 print=lambda *a, **k: None, __import__=self.imp)

        def VMAP(kind, f, it):
            if sym(it):
                s = toseq(it)
                return seqs.mapseq(f, s, "list")
            if kind == "list":
                return [f(x) for x in it]
            return (f(x) for x in it)

        def VFILTER(f, it):
            if sym(it):
                return seqs.filterseq(f, toseq(it))
            return (x for x in it if f(x))

        def VIN(x, c):
            if isinstance(c, Seq):
                if not isint(x):
                    raise Unsupported("membership in a symbolic sequence")
                return seqs.isin(x, c)
            if isinstance(c, (list, tuple, set, range)):
                for v in c:
                    if v is x or v == x:
                        return True
                return False
            return x in c

        def VLOOP(q, n, it, locs, assigned, targets, escapes, mutated, carried, body, outs):
            return Loop(self, q, n, it, locs, assigned, targets, escapes, mutated, carried, body, outs)

        def VWHILE(q, n, locs, assigned, leaves, mutated, carried):
            return WhileLoop(self, q, n, locs, assigned, leaves, mutated, carried)
        b["__VWHILE__"] = VWHILE

        def VGEN(eager, qual):
            def deco(f):
                def g(*a, **k):
                    if qual in self.eager:
                        r = eager(*a, **k)
                        if isinstance(r, Seq):
                            self.cursors.setdefault(id(r), [r, z3.IntVal(0)])
                            return r
                        return iter(r)
                    return f(*a, **k)
                g.__name__, g.__qualname__, g.__doc__ = f.__name__, f.__qualname__, f.__doc__
                return g
            return deco
        b["__VGEN__"] = VGEN

        def vnext(x, *d):
            if isinstance(x, Seq):
                c = self.cursors.get(id(x))
                if c is None or d:
                    raise Unsupported("next element of a generator of symbolic length")
                k = c[1]
                if not cx.decide(k < x.zlen()):
                    raise StopIteration
                c[1] = z3.simplify(k + 1)
                return x.at(k)
            return next(x, *d)
        b["next"] = vnext

        def VIS(x, y):
            if type(x) is Poison or type(y) is Poison:
                raise Unsupported("identity of a local after a symbolic loop")
            return x is y

        def VDICT(f, it):
            if sym(it):
                from .maploop import SymDict
                return SymDict(f, toseq(it))
            return dict(f(x) for x in it)

        b["__VIS__"], b["__VDICT__"] = VIS, VDICT

        def vhash(x):
            from .rand import Tok, key_of
            if isinstance(x, Tok):
                return Tok("hash", x.key)
            if isinstance(x, (str, bytes)):
                return Tok("process-dependent hash", self.procid, x)
            if isinstance(x, (int, float)):
                return hash(x)
            return Tok("hash", key_of(x))

        def vid(x):
            from .rand import Tok
            return Tok("process-dependent id", self.procid, id(x))

        b["hash"], b["id"] = vhash, vid
        b["__VFILTER__"] = VFILTER
        b["__VMAP__"], b["__VIN__"], b["__VLOOP__"] = VMAP, VIN, VLOOP
        b["__VLOCALS__"] = lambda: dict(sys._getframe(1).f_locals)
        return b

    # ------------------------------------------------------------- imports
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            raise Unsupported("relative import")
        if name == "tt_sketch" or name.startswith("tt_sketch."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        sub = self.path(name + "." + f)
                        if sub:
                            setattr(m, f, self.load(name + "." + f))
                return m
            return self.load("tt_sketch")
        if name.split(".")[0] in ("numpy", "scipy"):
            if name not in self.libs:
                raise Unsupported(f"import {name}")
            return self.libs[name] if fromlist else self.libs[name.split(".")[0]]
        if name == "math":
            return snp.MathShim()
        if name == "functools":
            return _functools
        if name == "copy":
            return _copymod
        return builtins.__import__(name, globals, locals, fromlist, level)

    def path(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name.endswith("fast_lazy_gaussian"):
            m = snp.Mod(name)
            st = self.stubs.get("fast_lazy_gaussian", {})
            for k in ("inds_to_normal", "inds_to_sparse_sign", "hash_int_c"):
                setattr(m, k, st.get(k, _nostub))
            self.mods[name] = m
            return m
        p = self.path(name)
        if p is None:
            raise ImportError(name)
        m = types.ModuleType(name)
        self.mods[name] = m
        sys.modules[name] = m
        code = compile_file(p)
        m.__dict__["__builtins__"] = self.builtin_ns()
        m.__dict__["__file__"] = p
        exec(code, m.__dict__)
        for k, v in self.patches.get(name, {}).items():
            if k in m.__dict__:
                m.__dict__[k] = v
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            setattr(self.load(par), leaf, m)
        return m


_cache = {}


def compile_file(p):
    if p not in _cache:
        src = open(p).read()
        tree = ast.parse(src)
        tree = Rewriter2().visit(tree)
        ast.fix_missing_locations(tree)
        _cache[p] = compile(tree, "<repo>/" + "/".join(p.split("/")[-2:]), "exec")
    return _cache[p]


def _nostub(*a, **k):
    raise Unsupported("call into fast_lazy_gaussian without a contract")


def _reduce(f, xs, *init):
    import functools, operator
    if isinstance(xs, Seq) and not xs.concrete():
        if f is not operator.mul:
            raise Unsupported("reduction of a symbolic sequence")
        r = snp.prod(xs)
        return init[0] * r if init else r
    if isinstance(xs, Seq):
        xs = xs.tolist()
    return functools.reduce(f, xs, *init)


_functools = types.ModuleType("functools")
import functools as _f
_functools.__dict__.update({k: getattr(_f, k) for k in dir(_f) if not k.startswith("__")})
_functools.reduce = _reduce

_copymod = types.ModuleType("copy")
import copy as _c
_copymod.deepcopy = _c.deepcopy
_copymod.copy = _c.copy
