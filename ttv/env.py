"""Two interpretations of the contracts in props*.py.

A contract is a function of an environment `e`: it draws sizes, arrays and tensors from e, calls the functions under
contract and states obligations.  SymEnv (verifier) gives symbolic sizes and uninterpreted arrays; ConcEnv (CPython) runs the
same contract on the real, compiled code with numbers, which is how counterexamples are replayed.
This module has no dependency on the solver.
"""
from __future__ import annotations
import string


class Fail(Exception):
    """An obligation is false for concrete values."""

    def __init__(self, name, why):
        super().__init__(f"{name}: {why}")
        self.name, self.why = name, why


class Skip(Exception):
    """The concrete input does not satisfy the precondition."""


LET = string.ascii_lowercase + string.ascii_uppercase


class EnvBase:
    """Construction of inputs and definition of the meaning of each format; shared by both interpretations."""

    # ------------------------------------------------------------- modules
    @property
    def tensor(self):
        return self.mod("tt_sketch.tensor")

    @property
    def utils(self):
        return self.mod("tt_sketch.utils")

    @property
    def sketch(self):
        return self.mod("tt_sketch.sketch")

    @property
    def dispatch(self):
        return self.mod("tt_sketch.sketch_dispatch")

    @property
    def container(self):
        return self.mod("tt_sketch.sketch_container")

    @property
    def gmres(self):
        return self.mod("tt_sketch.tt_gmres")

    @property
    def drm(self):
        return self.mod("tt_sketch.drm")

    def shape(self, d, name="n"):
        return tuple(self.size(f"{name}{i}") for i in range(d))

    # ------------------------------------------------------------- inputs: stored arrays and the tensor objects over them
    def tt_cores(self, name, shape, ranks=None):
        d = len(shape)
        if ranks is None:
            ranks = tuple(self.size(f"{name}r{i}") for i in range(1, d))
        rr = (1,) + tuple(ranks) + (1,)
        return [self.arr(f"{name}{i}", (rr[i], shape[i], rr[i + 1])) for i in range(d)]

    def tt(self, name, shape, ranks=None):
        c = self.tt_cores(name, shape, ranks)
        return self.tensor.TensorTrain(list(c)), self.dense_tt(c)

    def dense_tt(self, cores):
        """meaning of a tensor train: entry (i1..id) is the product of the core slices"""
        d = len(cores)
        r, n = LET[:d + 1], LET[26:26 + d]
        sub = ",".join(r[i] + n[i] + r[i + 1] for i in range(d)) + "->" + n
        return self.np.einsum(sub, *cores)

    def cp(self, name, shape):
        r = self.size(f"{name}r")
        c = [self.arr(f"{name}{i}", (n, r)) for i, n in enumerate(shape)]
        return self.tensor.CPTensor(list(c)), self.dense_cp(c)

    def dense_cp(self, cores):
        d = len(cores)
        n = LET[26:26 + d]
        return self.np.einsum(",".join(n[i] + "r" for i in range(d)) + "->" + n, *cores)

    def tucker(self, name, shape):
        d = len(shape)
        s = tuple(self.size(f"{name}s{i}") for i in range(d))
        G = self.arr(f"{name}G", s)
        U = [self.arr(f"{name}U{i}", (s[i], shape[i])) for i in range(d)]
        return self.tensor.TuckerTensor(list(U), G), self.dense_tucker(U, G)

    def dense_tucker(self, U, G):
        d = len(U)
        s, n = LET[:d], LET[26:26 + d]
        return self.np.einsum(s + "," + ",".join(s[i] + n[i] for i in range(d)) + "->" + n, G, *U)

    def dense(self, name, shape):
        X = self.arr(name, shape)
        return self.tensor.DenseTensor(X), X

    def sparse(self, name, shape, nnz=None):
        nnz = self.size(f"{name}nnz") if nnz is None else nnz
        inds, ent = self.coords(name, shape, nnz), self.arr(f"{name}e", (nnz,))
        return self.tensor.SparseTensor(shape, inds, ent), self.dense_sparse(shape, inds, ent)

    def full_sparse(self, name, shape):
        """a sparse tensor that stores every entry"""
        d = len(shape)
        n = 1
        for s in shape:
            n = n * s
        inds = self.np.indices(shape).reshape(d, -1)
        return self.tensor.SparseTensor(shape, inds, self.arr(f"{name}full", (n,)))

    def summed(self, name, shape, kinds=("tt", "cp")):
        xs = [self.make(k, f"{name}{j}", shape) for j, k in enumerate(kinds)]
        D = xs[0][1]
        for x in xs[1:]:
            D = D + x[1]
        return self.tensor.TensorSum([x[0] for x in xs]), D

    def make(self, kind, name, shape):
        """(tensor object, the dense array it denotes)"""
        if kind.startswith("sum:"):
            return self.summed(name, shape, tuple(kind[4:].split("+")))
        return getattr(self, {"tt": "tt", "cp": "cp", "tucker": "tucker", "dense": "dense", "sparse": "sparse", "sum": "summed"}[kind])(name, shape)

    # ------------------------------------------------------------- common specification helpers
    def rev(self, D):
        return self.np.transpose(D, tuple(range(len(D.shape)))[::-1])

    def inner(self, A, B):
        d = len(A.shape)
        s = LET[:d]
        return self.np.einsum(f"{s},{s}->", A, B)

    def eqs(self, name, xs, ys):
        self.ieq(name + " (number)", len(xs), len(ys))
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.eq(f"{name}[{i}]", x, y)

    def shape_is(self, name, got, want):
        self.ieq(name + " (length)", len(got), len(want))
        for i, (x, y) in enumerate(zip(got, want)):
            self.ieq(f"{name}[{i}]", x, y)

    def isa(self, name, x, cls):
        self.true(name, type(x) is cls)

    def left_orth(self, name, C):
        self.eq(name, self.np.einsum("aib,aic->bc", C, C), self.np.eye(C.shape[2]))

    def right_orth(self, name, C):
        self.eq(name, self.np.einsum("aib,cib->ac", C, C), self.np.eye(C.shape[0]))


# ------------------------------------------------------------------ frames
def walk(x, seen, depth=0):
    """structure of a value down to the arrays: nested tuples with array identities"""
    if depth > 12:
        return "…"
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x)) + tuple(walk(v, seen, depth + 1) for v in x)
    if isinstance(x, dict):
        return ("dict", id(x)) + tuple((repr(k), walk(v, seen, depth + 1)) for k, v in x.items())
    d = getattr(x, "__dict__", None)
    if d is not None and type(x).__module__.startswith("tt_sketch"):
        if id(x) in seen:
            return ("again", id(x))
        seen.add(id(x))
        return (type(x).__name__, id(x)) + tuple((k, walk(v, seen, depth + 1)) for k, v in sorted(d.items()))
    return ("leaf", x)


def same_walk(a, b, leafeq, path="operand"):
    """None if equal, else the place that differs"""
    if type(a) is not type(b):
        return path
    if isinstance(a, tuple):
        if a and a[0] == "leaf" and b and b[0] == "leaf":
            return None if leafeq(a[1], b[1]) else path
        if len(a) != len(b):
            return path
        for i, (x, y) in enumerate(zip(a, b)):
            nm = path
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] not in ("leaf", "again"):
                nm = f"{path}.{x[0]}"
            elif isinstance(x, tuple):
                nm = f"{path}[{i - 2}]"
            r = same_walk(x, y, leafeq, nm)
            if r:
                return r
        return None
    return None if a == b else path
