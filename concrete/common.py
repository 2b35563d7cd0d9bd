"""Run-time side of the contracts: generators, numpy oracles and the case runner.

Everything here runs under the repository's interpreter against the real code.  The oracles are written from the
definitions only (tensordot/einsum over explicit letters) and share no code with the repository.
"""
from __future__ import annotations
import itertools, json, os, string, subprocess, sys, time, traceback
import numpy as np

import tt_sketch.tensor as T
from tt_sketch.tensor import (CPTensor, DenseTensor, SparseTensor, Tensor, TensorSum, TensorTrain, TuckerTensor)


class Viol(Exception):
    pass


class Skip(Exception):
    pass


class HarnessError(Exception):
    """The case could not be run; says nothing about the property."""


LOAD_ERRORS = []
LET = string.ascii_letters


# ------------------------------------------------------------------ oracles
def tt_dense(cores):
    M = np.asarray(cores[0], dtype=float)
    for C in cores[1:]:
        M = np.tensordot(M, np.asarray(C, dtype=float), axes=([-1], [0]))
    return M.reshape(M.shape[1:-1])


def mpo_dense(cores):
    M = cores[0]
    for C in cores[1:]:
        M = np.tensordot(M, C, axes=([-1], [0]))
    return M.reshape(M.shape[1:-1])


def cp_dense(cores):
    d = len(cores)
    ins = ",".join(LET[i] + LET[d] for i in range(d))
    return np.einsum(f"{ins}->{LET[:d]}", *cores, optimize=False) if d <= 6 else _cp_slow(cores)


def _cp_slow(cores):
    out = 0
    for r in range(cores[0].shape[1]):
        v = cores[0][:, r]
        for C in cores[1:]:
            v = np.multiply.outer(v, C[:, r])
        out = out + v
    return out if not np.isscalar(out) else np.zeros(tuple(C.shape[0] for C in cores))


def tucker_dense(factors, core):
    X = core
    for k, U in enumerate(factors):
        X = np.moveaxis(np.tensordot(U, X, axes=([0], [k])), 0, k)
    return X


def sparse_dense(shape, inds, entries):
    X = np.zeros(shape)
    for k in range(len(entries)):
        X[tuple(int(i[k]) for i in inds)] = entries[k]
    return X


def den(x):
    """Dense array denoted by a tensor, from its stored data alone."""
    if isinstance(x, np.ndarray):
        return x
    n = type(x).__name__
    if n == "DenseTensor":
        return np.array(x.data, dtype=float)
    if n == "SparseTensor":
        return sparse_dense(x.shape, x.indices, x.entries)
    if n == "TensorTrain":
        return tt_dense(x.cores)
    if n == "CPTensor":
        return cp_dense(x.cores)
    if n == "TuckerTensor":
        return tucker_dense(x.factors, x.core)
    if n == "TensorSum":
        s = np.zeros(x.shape)
        for y in x.tensors:
            s = s + den(y)
        return s
    if n == "MPO":
        return mpo_dense(x.cores)
    if n == "SketchedTensorTrain":
        return tt_dense(nystrom_cores(x.Psi_cores, x.Omega_mats))
    raise Skip(n)


def nystrom_cores(Psi, Om, direction=None):
    lr = np.array([o.shape[0] for o in Om])
    rr = np.array([o.shape[1] for o in Om])
    if direction is None:
        direction = "left" if np.all(lr > rr) else "right"
    out = []
    if direction == "right":
        for P, O in zip(Psi[:-1], Om):
            out.append(np.tensordot(P, np.linalg.pinv(O), axes=([2], [0])))
        out.append(Psi[-1])
    else:
        out.append(Psi[0])
        for P, O in zip(Psi[1:], Om):
            out.append(np.tensordot(np.linalg.pinv(O), P, axes=([1], [0])))
    return out


def arrays_of(x, seen=None):
    """All arrays reachable from an object (for frame checks), with paths."""
    out = []
    seen = set() if seen is None else seen

    def go(o, path):
        if id(o) in seen:
            return
        if isinstance(o, np.ndarray):
            out.append((path, o))
            return
        if isinstance(o, (list, tuple)):
            seen.add(id(o))
            for i, y in enumerate(o):
                go(y, f"{path}[{i}]")
        elif isinstance(o, dict):
            seen.add(id(o))
            for k, y in o.items():
                go(y, f"{path}[{k}]")
        elif hasattr(o, "__dict__") and type(o).__module__.startswith("tt_sketch"):
            seen.add(id(o))
            for k, y in vars(o).items():
                go(y, f"{path}.{k}")
    go(x, "")
    return out


class Frame:
    """Nothing reachable from the given objects changes (arrays, list lengths, shapes, ranks)."""

    def __init__(self, *objs):
        self.objs = objs
        self.snap = [self._take(o) for o in objs]

    @staticmethod
    def _take(o):
        arrs = [(p, a.copy()) for p, a in arrays_of(o)]
        meta = {}
        for k in ("shape", "rank", "in_shape", "out_shape", "rank_min", "rank_max", "true_rank", "transpose", "seed"):
            if hasattr(o, k):
                meta[k] = getattr(o, k)
        return arrs, meta

    def check(self, what):
        for o, (arrs, meta) in zip(self.objs, self.snap):
            now = arrays_of(o)
            if len(now) != len(arrs):
                raise Viol(f"{what}: the arrays stored in operand {type(o).__name__} changed (number {len(arrs)} -> {len(now)})")
            for (p, a), (q, b) in zip(arrs, now):
                if p != q or a.shape != b.shape or not np.array_equal(a, b, equal_nan=True):
                    raise Viol(f"{what}: operand {type(o).__name__}{p} was modified")
            for k, v in meta.items():
                if getattr(o, k) != v:
                    raise Viol(f"{what}: attribute {k} of operand {type(o).__name__} was modified")


def close(a, b, what, tol=1e-9, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Viol(f"{what}: shape {a.shape} instead of {b.shape}")
    if a.size == 0:
        return
    if not np.all(np.isfinite(a)) and np.all(np.isfinite(b)):
        raise Viol(f"{what}: non-finite result")
    s = scale if scale is not None else max(np.linalg.norm(b.ravel()), 1e-300)
    e = np.linalg.norm((a - b).ravel())
    if not e <= tol * s + 1e-300:
        raise Viol(f"{what}: deviates by {e:.3e} (allowed {tol * s:.1e})")


def same(a, b, what):
    if a != b:
        raise Viol(f"{what}: {a!r} instead of {b!r}")


def tup(x):
    return tuple(int(i) for i in x)


def req(c, what):
    if not c:
        raise Viol(what)


def raises(exc, f, what):
    try:
        f()
    except exc:
        return
    except Exception as e:
        raise Viol(f"{what}: raised {type(e).__name__} instead of {exc.__name__}: {str(e)[:100]}")
    raise Viol(f"{what}: no {exc.__name__} was raised")


def left_orth(C, what, tol=1e-8):
    M = C.reshape(C.shape[0] * C.shape[1], C.shape[2])
    close(M.T @ M, np.eye(C.shape[2]), f"{what}: columns not orthonormal", tol)


def right_orth(C, what, tol=1e-8):
    M = C.reshape(C.shape[0], C.shape[1] * C.shape[2])
    close(M @ M.T, np.eye(C.shape[0]), f"{what}: rows not orthonormal", tol)


# ------------------------------------------------------------------ generators
class Gen:
    """Random inputs.  `hint` may carry shapes or ranks from a verifier's counter-model."""

    def __init__(self, seed, hint=None):
        self.r = np.random.default_rng(seed)
        self.hint = hint or {}
        self.log = []
        # every third round draws inputs of larger order, ranks, sizes and numbers of summands
        self.big = isinstance(seed, (list, tuple)) and len(seed) > 3 and seed[3] % 3 == 1

    def note(self, **k):
        self.log.append({a: repr(b)[:300] for a, b in k.items()})

    def i(self, lo, hi):
        return int(self.r.integers(lo, hi + 1))

    def pick(self, xs):
        return xs[self.i(0, len(xs) - 1)]

    def n(self, lo, hi, big):
        """a count; larger in rounds of large inputs"""
        return self.i(lo, self.pick([hi, big]) if self.big else hi)

    def many(self, hi=4):
        """a number of summands, now and then many"""
        return self.i(5, 24 if self.big else 13) if self.coin(0.2) else self.i(1, hi)

    def coin(self, p=0.5):
        return bool(self.r.random() < p)

    def shape(self, dmin=1, dmax=6, total=400, big=6):
        if self.hint.get("shape") and self.coin(0.6):
            s = tuple(self.hint["shape"])
            if dmin <= len(s) and np.prod(s) <= 5000:
                return s
        if self.big and dmax > 3:
            return self.bigshape(dmin, dmax, total)
        k = self.i(0, 9)
        if k == 0:
            d = self.i(dmin, max(dmin, dmax + 2))
            s = [self.i(1, 2) for _ in range(d)]
        elif k == 1:
            d = self.i(dmin, min(3, max(dmin, 3)))
            s = [self.pick([1, 2, 3, 7, 9]) for _ in range(d)]
        else:
            d = self.i(dmin, dmax)
            s = [self.i(1 if self.coin(0.4) else 2, big) for _ in range(d)]
        while np.prod(s) > total:
            j = int(np.argmax(s))
            s[j] -= 1
        s = tuple(s)
        self.note(shape=s)
        return s

    def bigshape(self, dmin, dmax, total):
        if total > 300 and self.coin(0.04):
            return self.hugeshape(max(dmin, 1), dmax)
        total = min(8 * total, 4000)
        k = self.i(0, 4)
        if dmax > 4 and self.coin(0.08):      # more modes than there are letters
            s = [1] * self.i(27, 28)
            for _ in range(self.i(0, 6)):
                s[self.i(0, len(s) - 1)] = self.i(2, 3)
        elif k == 0:
            s = [self.i(1, 2) for _ in range(self.i(max(dmin, 6), dmax + 6))]
        elif k == 1:
            s = [self.i(1, 4) for _ in range(self.i(max(dmin, 1), 3))]
            s[self.i(0, len(s) - 1)] = self.i(50, 300)
        elif k == 2:
            s = [self.pick([1, 1, 2, 5, 11]) for _ in range(self.i(max(dmin, 3), dmax + 2))]
        elif k == 3:
            s = [self.i(2, 4)] * self.i(dmin, dmax + 2)
        else:
            s = [self.i(4, 20) for _ in range(self.i(dmin, max(dmin, 4)))]
        while np.prod(s) > total:
            j = int(np.argmax(s))
            s[j] -= max(1, s[j] // 8)
        s = tuple(int(x) for x in s)
        self.note(shape=s)
        return s

    def hugeshape(self, dmin, dmax):
        """sizes beyond the usual thresholds for switching algorithms or integer types"""
        d = self.i(dmin, max(dmin, min(dmax, 4)))
        t = 10.0 ** self.r.uniform(3.6, 4.85)
        if self.coin(0.4):      # one long mode
            s = [self.i(1, 3) for _ in range(d)]
            s[self.i(0, d - 1)] = max(1, int(t / np.prod(s)))
        else:
            s = [max(1, int(t ** (1 / d) * self.r.uniform(0.8, 1.2))) for _ in range(d)]
        s = tuple(s)
        self.note(shape=s)
        return s

    def ranks(self, shape, hi=5):
        if self.big and hi > 3:
            hi = self.pick([hi, 12, 40, 70])
        d = len(shape)
        k = self.i(0, 4)
        if k == 0:
            r = (self.i(1, hi),) * (d - 1)
        elif k == 1:
            r = tuple(self.i(1, 2) for _ in range(d - 1))
        else:
            r = tuple(self.i(1, hi) for _ in range(d - 1))
        self.note(ranks=r)
        return r

    def arr(self, shape, plain=False):
        k = 9 if plain else self.i(0, 11)
        if k == 10:     # negative strides, sometimes in another memory order
            a = self.r.normal(size=shape)
            a = a[tuple(slice(None, None, self.pick([-1, 1])) for _ in shape)]
            if self.coin() and len(shape) > 1:
                p = self.r.permutation(len(shape))
                a = np.ascontiguousarray(a.transpose(p)).transpose(np.argsort(p))
        elif k == 11:
            a = self.r.normal(size=shape)
            a.flags.writeable = False
        elif k == 0:
            a = self.r.integers(-3, 4, size=shape)
            if self.coin():
                a = a.astype(float)
        elif k == 1:
            a = self.r.normal(size=shape) * 10.0 ** self.i(-6, 6)
        elif k == 2:
            a = np.asfortranarray(self.r.normal(size=shape))
        elif k == 3 and 2.0 ** len(shape) * np.prod(shape, dtype=float) < 1e6:
            a = self.r.normal(size=tuple(2 * s for s in shape))[tuple(slice(None, None, 2) for _ in shape)]
        elif k == 4:
            a = self.r.normal(size=shape) * (self.r.random(size=shape) < 0.4)
        else:
            a = self.r.normal(size=shape)
        return a

    def scalar(self):
        return self.pick([0.0, 1.0, -1.0, 2.5, -0.3, 3, -2, 1e-3, 1e4, float(self.r.normal()), np.float64(-1.7), np.int64(4), np.float32(0.75)])

    def scaled(self, a):
        """now and then values of very different or very small sizes"""
        k = self.i(0, 11)
        if k == 0:
            return a * 10.0 ** self.r.uniform(-22, 0, size=a.shape)
        if k == 1:
            return a * 10.0 ** self.i(-25, -10)
        return a

    # formats
    def dense(self, shape):
        return DenseTensor(self.scaled(self.arr(shape)))

    def sparse(self, shape, nnz=None):
        tot = int(np.prod(shape))
        if nnz is None:
            nnz = self.pick([0, 1, tot, self.i(0, tot), self.i(0, tot), self.i(0, max(0, tot // 3))])
        nnz = min(nnz, tot)
        flat = self.r.permutation(tot)[:nnz]
        inds = np.array(np.unravel_index(flat, shape)).reshape(len(shape), nnz).astype(np.int64)
        e = self.scaled(self.arr((nnz,))) if nnz else np.zeros(0)
        if self.coin(0.2):
            inds = inds.astype(self.pick([np.int32, np.int16, np.uint16] if max(shape) < 2**15 else [np.int32, np.uint32]))
        k = self.i(0, 9)
        if k == 0:
            inds = np.asfortranarray(inds)
        elif k == 1:
            inds, e = inds[:, ::-1], e[::-1]
        elif k == 2:
            inds.flags.writeable = False
        elif k == 3:
            inds = np.repeat(inds, 2, axis=1)[:, ::2]
        if self.coin(0.3):
            return SparseTensor(shape, tuple(inds), e)
        return SparseTensor(shape, inds, e)

    def tt(self, shape, ranks=None, plain=False, hi=5):
        r = (1,) + tuple(ranks if ranks is not None else self.ranks(shape, hi)) + (1,)
        return TensorTrain([self.arr((r[k], n, r[k + 1]), plain) for k, n in enumerate(shape)])

    def cp(self, shape, rank=None):
        r = rank or self.i(1, self.pick([4, 30, 70]) if self.big else 4)
        return CPTensor([self.arr((n, r)) for n in shape])

    def tucker(self, shape, ranks=None):
        r = ranks or tuple(self.i(1, self.pick([4, 12, 25]) if self.big else 4) for _ in shape)
        while np.prod(r, dtype=float) > (5000 if self.big else 600):
            r = tuple(max(1, x - 1) for x in r)
        return TuckerTensor([self.arr((s, n)) for s, n in zip(r, shape)], self.arr(r))

    def tsum(self, shape, n=None, nested=True):
        n = n or self.many()
        xs = [self.plainfmt(shape) for _ in range(n)]
        if n > 1 and self.coin(0.25):       # the same object twice
            xs[self.i(0, n - 1)] = xs[self.i(0, n - 1)]
        if nested and self.coin(0.25):      # a sum among the summands
            k = self.i(0, n - 1)
            xs[k] = TensorSum([xs[k]] + [self.plainfmt(shape) for _ in range(self.i(0, 2))])
        return TensorSum(xs)

    FORMATS = ("dense", "sparse", "tt", "cp", "tucker")

    def plainfmt(self, shape):
        return getattr(self, self.pick(self.FORMATS))(shape)

    def anyfmt(self, shape, sums=True):
        if sums and self.coin(0.25):
            return self.tsum(shape)
        return self.plainfmt(shape)


# ------------------------------------------------------------------ runner
REG = {}


def case(prop, weight=1.0):
    def deco(f):
        REG.setdefault(prop, []).append((f.__name__, f, weight))
        return f
    return deco


def code_exception(e):
    tb = traceback.extract_tb(e.__traceback__)
    return any("tt_sketch" in f.filename.replace("\\", "/").split("/") for f in tb)


class Overtime(BaseException):
    """A case ran for far longer than any does; raised by the timer wherever the program is."""


def limited(f, g, seconds):
    import signal
    import threading
    if threading.current_thread() is not threading.main_thread():
        return f(g)

    def stop(*a):
        raise Overtime()
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f(g)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


LIMITS = (40, 160)      # seconds; the second one for the repetition of a case that reached the first


def run_one(prop, name, f, seed, hint, limit=0):
    g = Gen(seed, hint)
    try:
        with np.errstate(all="ignore"):
            limited(f, g, LIMITS[limit])
    except Overtime as e:
        if not code_exception(e):
            raise HarnessError(f"a case took more than {LIMITS[limit]} s")
        if limit == 0:
            return run_one(prop, name, f, seed, hint, 1)
        last = [x for x in traceback.extract_tb(e.__traceback__) if "tt_sketch" in x.filename.split("/")][-1]
        return (f"the code did not return within {LIMITS[limit]} s (it was at {last.filename.split('/')[-1]}:{last.lineno} "
                f"in {last.name}) on a valid input"), g
    except Skip:
        return None, g
    except Viol as e:
        return str(e), g
    except Exception as e:
        if code_exception(e) and not isinstance(e, MemoryError):
            tb = traceback.extract_tb(e.__traceback__)
            last = [x for x in tb if "tt_sketch" in x.filename.split("/")][-1]
            return (f"the code raised {type(e).__name__}: {str(e)[:200]} "
                    f"(at {last.filename.split('/')[-1]}:{last.lineno} in {last.name}) on a valid input"), g
        if isinstance(e, (AttributeError, ImportError, NameError, RuntimeError, subprocess.SubprocessError, OSError, MemoryError)) or "too big" in str(e):
            raise HarnessError(f"{type(e).__name__}: {str(e)[:200]}") from e
        return f"result unusable: {type(e).__name__}: {str(e)[:200]}", g
    return False, g


def run(prop, seed, budget, hint=None, max_fail=1, min_rounds=3, max_rounds=100000):
    t0 = time.time()
    cases = REG[prop]
    if hint and ("contract" in hint or "any" in hint):
        cases = [c for c in cases if c[0] == "contract"] or cases
    counts = {n: 0 for n, _, _ in cases}
    skipped = 0
    fails, samples, distinct = [], [], set()
    errors = {}
    pf = open(os.environ["TTV_PROGRESS"], "w") if os.environ.get("TTV_PROGRESS") else None
    rnd = 0
    while rnd < max_rounds and (rnd < min_rounds or time.time() - t0 < budget):
        for name, f, w in cases:
            if w < 1 and rnd and (rnd % max(1, round(1 / w))):
                continue
            for rep in range(max(1, int(w))):
                s = [seed, sum(map(ord, prop)), sum(ord(c) * (i + 1) for i, c in enumerate(name)), rnd, rep]
                if pf:
                    pf.seek(0)
                    pf.write(json.dumps({"case": name, "seed": s, "hint": hint}).ljust(400))
                    pf.flush()
                try:
                    r, g = run_one(prop, name, f, s, hint)
                except HarnessError as e:
                    errors[name] = str(e)
                    continue
                if r is None:
                    skipped += 1
                    continue
                counts[name] += 1
                distinct.add((name, json.dumps(g.log, sort_keys=True)))
                if rnd == 0 and rep == 0:
                    samples.append({"case": name, "input": g.log[:6]})
                if r:
                    fails.append({"case": name, "seed": s, "what": r, "input": g.log, "hint": hint})
                    if len(fails) >= max_fail:
                        return dict(errors=errors, counts=counts, skipped=skipped, fails=fails, samples=samples,
                                    evaluations=sum(counts.values()), distinct=len(distinct), wall=time.time() - t0)
            if rnd >= min_rounds and time.time() - t0 > budget:
                break
        rnd += 1
    return dict(errors=errors, counts=counts, skipped=skipped, fails=fails, samples=samples, evaluations=sum(counts.values()),
                distinct=len(distinct), wall=time.time() - t0)
