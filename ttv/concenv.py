"""The contracts interpreted on the real code with numbers (CPython, numpy)."""
from __future__ import annotations
import importlib
import re
import random
import warnings

import numpy as np

from .env import EnvBase, Fail, Skip, walk, same_walk

KINDS = ("normal", "int", "tiny", "huge", "zero", "nonneg", "mixed", "sparse", "ones", "sym", "same", "small")


class ConcEnv(EnvBase):
    symbolic = False
    np = np

    def __init__(self, rng, sizes=None, kind="normal", small=4, maxel=200000):
        self.rng = rng
        self.nprng = np.random.default_rng(rng.getrandbits(60))
        self.sizes = dict(sizes or {})
        self.kind = kind
        self.small = small
        self.arrays = {}
        self.bounds = {}
        self.checks = 0
        self.names = []
        self.maxel = maxel
        self.mag = 0.0
        self.seen = {}
        self.equal = rng.random() < (0.8 if kind in ("sym", "same") else 0.15)

    def mod(self, name):
        return importlib.import_module(name)

    # ------------------------------------------------------------- inputs
    def size(self, name, lo=1, hi=None):
        if name not in self.sizes:
            top = self.small if hi is None else min(hi, self.small + lo)
            self.sizes[name] = self.rng.randint(lo, max(lo, top))
            if self.equal:
                for k, v in self.sizes.items():
                    if k[0] == name[0] and lo <= v and (hi is None or v <= hi):
                        self.sizes[name] = v
                        break
        v = self.sizes[name]
        if v < lo or (hi is not None and v > hi):
            raise Skip(f"{name}={v}")
        return v

    def assume(self, c):
        if not bool(c):
            raise Skip("precondition")

    min = staticmethod(min)
    max = staticmethod(max)

    def threshold(self, name):
        if name not in self.arrays:
            self.arrays[name] = float(self.rng.choice([0.0, 1e-3, 0.05, 0.2, 0.5, 0.9, 1.0, 1.5]))
        return self.arrays[name]

    def count_above(self, S, eps):
        if S[0] > 0 and np.any(np.abs(S / S[0] - eps) < 1e-7):
            if not (eps == 1 and np.all(np.abs(S[1:] / S[0] - 1) > 1e-7)):
                raise Skip("a singular value at the threshold")
        if S[0] < 1e-150 and S[0] > 0:
            raise Skip("underflow")
        return int(np.sum(S > S[0] * eps))

    def svdvals_are(self, name, got, S, M):
        want = np.linalg.svd(M, compute_uv=False)
        n = max(len(got), len(want))
        self.true(name + " decreasing", np.all(np.diff(got) <= 1e-12 * (got[0] if len(got) else 1)))
        self.eq(name, np.pad(got, (0, n - len(got))), np.pad(want, (0, n - len(want))))

    def implies(self, a, b):
        return (not a) or bool(b)

    def big(self, D):
        """size of the terms that cancel"""
        return float(np.max(np.abs(np.asarray(D, dtype=float)), initial=0.0))

    def sq(self, D):
        return float(np.sum(D * D))

    def all(self, cs):
        return all(bool(c) for c in cs)

    def differ(self, a, b):
        if tuple(a) == tuple(b):
            raise Skip("precondition")

    def values(self, shape):
        n = int(np.prod(shape, dtype=np.int64))
        if n > self.maxel:
            raise Skip("too large to replay")
        g, k = self.nprng, self.kind
        if k == "mixed":
            k = self.rng.choice(KINDS)
        if k == "normal":
            x = g.standard_normal(n)
        elif k == "int":
            x = g.integers(-2, 3, n).astype(float)
        elif k == "tiny":
            x = g.standard_normal(n) * 1e-9
        elif k == "huge":
            x = g.standard_normal(n) * 1e9
        elif k == "zero":
            x = np.zeros(n)
        elif k == "nonneg":
            x = g.random(n)
        elif k == "ones":
            x = np.ones(n)
        elif k == "small":
            x = g.standard_normal(n) * 10.0 ** g.integers(-12, 5)
        elif k == "same":
            key = tuple(shape)
            if key not in self.seen:
                self.seen[key] = g.integers(-2, 3, n).astype(float)
            x = self.seen[key].copy()
        elif k == "sym":
            x = g.integers(-3, 4, n).astype(float).reshape(shape)
            for i in range(len(shape)):
                for j in range(i):
                    if shape[i] == shape[j] and self.rng.random() < 0.5:
                        x = x + x.swapaxes(i, j)
                        if self.rng.random() < 0.5:
                            return x
        else:
            x = g.standard_normal(n) * (g.random(n) < 0.4)
        return x.reshape(shape)

    def arr(self, name, sizes):
        if name not in self.arrays:
            self.arrays[name] = self.values(tuple(int(s) for s in sizes))
        return self.arrays[name]

    def scalar(self, name):
        if name not in self.arrays:
            self.arrays[name] = float(self.rng.choice([2.0, -1.5, 0.3, 1.0, -1.0, 7.25, 0.0, 1e-3]))
        return self.arrays[name]

    def nonzero(self, name):
        v = self.scalar(name)
        if v == 0:
            v = self.arrays[name] = 3.5
        return v

    def well(self, o):
        if o.size == 0 or not np.any(o):
            return
        s = np.linalg.svd(o, compute_uv=False)
        if not s[-1] > 1e-5 * s[0]:
            raise Skip("ill-conditioned")

    def nonsingular(self, name, n):
        A = self.arr(name, (n, n))
        if np.linalg.cond(A) > 1e4:
            raise Skip("singular")
        return A

    def fullrank(self, name, m, k, n):
        if m < k or n < k:
            raise Skip("rank")
        P, Q = self.arr(name + "P", (m, k)), self.arr(name + "Q", (k, n))
        for M in (P, Q):
            s = np.linalg.svd(M, compute_uv=False)
            if not s[-1] > 1e-2 * s[0]:
                raise Skip("rank-deficient")
        return P, Q, P @ Q

    def seed(self, name):
        if name not in self.arrays:
            self.arrays[name] = self.rng.choice([0, 1, 5, 179, 2**31, 2**32 - 2, self.rng.getrandbits(32) % (2**32 - 1)])
        return self.arrays[name]

    def coords(self, name, shape, nnz):
        tot = int(np.prod(shape, dtype=np.int64))
        if nnz > tot:
            raise Skip("more nonzeros than entries")
        if name not in self.arrays:
            flat = np.array(self.rng.sample(range(tot), nnz), dtype=np.int64)
            self.arrays[name] = np.stack(np.unravel_index(flat, shape))
        return self.arrays[name]

    def sign_requested(self, name, M, rank, nnz):
        M = np.asarray(M)
        self.true(name, M.shape[0] == rank and np.all(np.count_nonzero(M, axis=0) == min(rank, nnz)))

    def distinct_points(self, name, inds, shape, n):
        self._note(name)
        a = np.array([np.asarray(r) for r in inds]).reshape(len(shape), -1)
        if a.shape != (len(shape), n):
            raise Fail(name, f"index array of shape {a.shape}")
        if n and not all(0 <= a[k].min() and a[k].max() < s for k, s in enumerate(shape)):
            raise Fail(name, "coordinate out of range")
        if len({tuple(c) for c in a.T.tolist()}) != n:
            raise Fail(name, "coordinates coincide")

    def disturb(self):
        np.random.seed(self.rng.getrandbits(31))
        np.random.normal(size=self.rng.randint(1, 40))
        for _ in range(self.rng.randint(0, 2)):
            self.tensor.TensorTrain.random((2, 3), 2)
            self.drm.SparseGaussianDRM(2, (3, 3), True)

    def same(self, name, a, b):
        self._note(name)
        if isinstance(a, (list, tuple)):
            if len(a) != len(b):
                raise Fail(name, f"{len(a)} and {len(b)} parts")
            for i, (x, y) in enumerate(zip(a, b)):
                self.same(f"{name} [{i}]", x, y)
        elif isinstance(a, np.ndarray):
            if a.shape != b.shape or a.dtype != b.dtype or a.tobytes() != b.tobytes():
                raise Fail(name, "the two results differ")
        elif a != b:
            raise Fail(name, f"{a} and {b}")

    def distinct_random(self, name, a, b, pairwise=False):
        self._note(name)
        if pairwise:
            for x, y in zip(a, b):
                self.distinct_random(name, [x], [y])
            return
        for x in a:
            for y in b:
                x, y = np.asarray(x), np.asarray(y)
                if x.ndim == y.ndim and x.size and y.size:
                    c = tuple(slice(0, min(m, n)) for m, n in zip(x.shape, y.shape))
                    u, v = x[c], y[c]
                    gaussian = len(np.unique(u)) > 3 or u.size < 3
                    if (gaussian and not np.isin(u, (-1, 0, 1)).all() and np.allclose(u, v, rtol=1e-9, atol=0)) or (not gaussian and u.size > 150 and np.array_equal(u, v)):
                        raise Fail(name, "the arrays coincide")

    def points(self, name, shape, n):
        """any list of coordinates"""
        if name not in self.arrays:
            self.arrays[name] = np.stack([self.nprng.integers(0, s, n) for s in shape])
        return self.arrays[name]

    def at_points(self, D, pts):
        return D[tuple(pts)]

    def dense_sparse(self, shape, inds, ent):
        D = np.zeros(tuple(int(s) for s in shape))
        np.add.at(D, tuple(inds), ent)
        return D

    def _mag(self, f, *a):
        """largest sum of absolute values of the products that make up an entry"""
        D = f(*a)
        if D.size:
            self.mag = max(self.mag, float(np.max(np.abs(D))))

    def dense_tt(self, cores):
        self._mag(super().dense_tt, [np.abs(c) for c in cores])
        return super().dense_tt(cores)

    def dense_cp(self, cores):
        self._mag(super().dense_cp, [np.abs(c) for c in cores])
        return super().dense_cp(cores)

    def dense_tucker(self, U, G):
        self._mag(super().dense_tucker, [np.abs(c) for c in U], np.abs(G))
        return super().dense_tucker(U, G)

    def make(self, kind, name, shape):
        X, D = super().make(kind, name, shape)
        if D.size:
            self.mag = max(self.mag, float(np.max(np.abs(D))))
        return X, D

    # ------------------------------------------------------------- obligations
    def _note(self, name):
        self.checks += 1
        self.names.append(name)

    def eq(self, name, a, b, scale=None):
        self._note(name)
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Fail(name, f"shape {a.shape}, expected {b.shape}")
        if a.size == 0:
            return
        if not np.all(np.isfinite(a) | ~np.isfinite(b)):
            raise Fail(name, "not finite")
        s = max(float(np.max(np.abs(b))), float(np.max(np.abs(a))), scale or 0.0)
        amp = self.amplitude()
        err = float(np.max(np.abs(a - b)))
        if not err <= 1e-7 * s + 1e-9 * amp:
            raise Fail(name, f"differs by {err:.3g} (largest expected entry {float(np.max(np.abs(b))):.3g})")

    def amplitude(self):
        """bound on the size of intermediate values, for the rounding allowance"""
        if self.kind == "tiny":
            return self.mag
        if self.kind in ("huge", "mixed"):
            return max(1.0, self.mag)
        return max(1e-3, min(self.mag, 1.0))

    def seq(self, name, a, b, **k):
        self.eq(name, a, b, **k)

    def ieq(self, name, a, b):
        self._note(name)
        if not (int(a) == a and int(b) == b and int(a) == int(b)):
            raise Fail(name, f"{a} instead of {b}")

    def true(self, name, c):
        self._note(name)
        if not bool(c):
            raise Fail(name, "false")

    def raises(self, name, exc, f):
        self._note(name)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                f()
        except exc:
            return
        raise Fail(name, f"no {exc.__name__}")

    def frame(self, *objs):
        import copy
        def leaf(x):
            return x.copy() if isinstance(x, np.ndarray) else x
        snaps = []
        for o in objs:
            w = walk(o, set())
            snaps.append((o, _copyleaves(w)))
        return snaps

    def frame_ok(self, name, snap):
        self._note(name)
        for i, (o, w) in enumerate(snap):
            bad = same_walk(w, walk(o, set()), _leafeq, f"operand {i}")
            if bad:
                raise Fail(name, f"{bad} was modified")

    def floor_le(self, *a):
        return True


def _copyleaves(w):
    if isinstance(w, tuple):
        if len(w) == 2 and w[0] == "leaf":
            v = w[1]
            return ("leaf", (v, v.copy()) if isinstance(v, np.ndarray) else (v, v))
        return tuple(_copyleaves(x) for x in w)
    return w


def _leafeq(a, b):
    ident, copy = a
    if isinstance(copy, np.ndarray):
        return ident is b and np.array_equal(copy, b, equal_nan=True)
    try:
        return ident is b or bool(copy == b)
    except Exception:
        return ident is b


def run_scenario(fn, rng, sizes=None, kind="normal", small=4):
    """('ok', nchecks) | ('skip', why) | ('fail', name, why, input)"""
    if sizes is None:
        return _run_scenario(fn, rng, sizes, kind, small)
    for _ in range(16):
        # the verifier's sizes need not leave room for that many distinct coordinates
        r = _run_scenario(fn, rng, sizes, kind, small)
        if r != ("skip", "more nonzeros than entries"):
            return r
        modes = [k for k in sizes if re.fullmatch(r"n\d+", k)]
        if not modes:
            return r
        k = rng.choice(modes)
        sizes = {**sizes, k: 2 * sizes[k]}
    return r


def _run_scenario(fn, rng, sizes, kind, small):
    e = ConcEnv(rng, sizes, kind, small)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                fn(e)
    except Skip as s:
        return ("skip", str(s))
    except Fail as f:
        return ("fail", f.name, f.why, describe(e))
    except np.linalg.LinAlgError as f:
        return ("skip", f"LinAlgError {f}")
    except Exception as f:
        import traceback
        tb = traceback.extract_tb(f.__traceback__)
        if not any("tt_sketch" in x.filename for x in tb):
            raise
        loc = "; ".join(f"{x.filename.split('/')[-1]}:{x.lineno}" for x in tb[-2:])
        return ("fail", "no-exception", f"raises {type(f).__name__}: {f} at {loc}", describe(e))
    return ("ok", e.checks)


def describe(e):
    d = dict(sizes=e.sizes, values=e.kind)
    arrs = {}
    for k, v in e.arrays.items():
        if isinstance(v, np.ndarray) and v.size <= 60:
            arrs[k] = v.tolist()
        elif isinstance(v, float):
            arrs[k] = v
    d["arrays"] = arrs
    return d
