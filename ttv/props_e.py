"""Contracts of C20 (seeds)."""
from .scen import scenario
from .props_c import DRMS, drm, mats, ranks


def twice(e, what, f):
    """the same call in two different surroundings (state of numpy's global generator, process, objects created before)"""
    e.disturb()
    a = f()
    e.disturb()
    b = f()
    e.same(what, a, b)
    return a


def _maker(kind, d):
    def f(e):
        shape = e.shape(d)
        T, s = e.tensor, e.seed("s")
        q = e.size("q")
        r = ranks(e, "q", d)
        if kind == "tt":
            for k in ({}, {"orthog": True}, {"norm_goal": "norm-preserve", "trim": True}):
                twice(e, f"TensorTrain.random {k}", lambda: T.TensorTrain.random(shape, r, seed=s, **k).cores)
            twice(e, "TensorTrain.random with one rank", lambda: T.TensorTrain.random(shape, q, s).cores)
        elif kind == "cp":
            twice(e, "CPTensor.random", lambda: T.CPTensor.random(shape, q, seed=s).cores)
        elif kind == "tucker":
            def g():
                X = T.TuckerTensor.random(shape, q, seed=s)
                return [X.core] + list(X.factors)
            twice(e, "TuckerTensor.random", g)
        elif kind == "sparse":
            n = 1
            for x in shape:
                n = n * x
            nnz = e.size("nnz", lo=0)
            e.assume(nnz <= n)

            def g():
                X = T.SparseTensor.random(shape, nnz, seed=s)
                return [X.entries] + [r for r in X.indices]
            twice(e, "SparseTensor.random", g)
    return f


for k in ("tt", "cp", "tucker", "sparse"):
    for d in (1, 2, 3):
        scenario("C20", f"seeded random {k} order {d}", d=d, fns=[{"tt": "TensorTrain", "cp": "CPTensor", "tucker": "TuckerTensor", "sparse": "SparseTensor"}[k] + ".random"])(_maker(k, d))


def _other_seed(kind, d):
    def f(e):
        shape = e.shape(d)
        T, s, t = e.tensor, e.seed("s"), e.seed("t")
        e.differ((s,), (t,))
        q = e.size("q")
        g = {"tt": lambda x: T.TensorTrain.random(shape, q, seed=x).cores, "cp": lambda x: T.CPTensor.random(shape, q, seed=x).cores,
             "tucker": lambda x: [T.TuckerTensor.random(shape, q, seed=x).core], "sparse": lambda x: [T.SparseTensor.random(shape, 1, seed=x).entries]}[kind]
        e.distinct_random(f"{kind} with another seed", g(s), g(t))
    return f


for k in ("tt", "cp", "tucker", "sparse"):
    for d in (1, 2, 3):
        scenario("C20", f"other seed, other random {k} order {d}", d=d, fns=["random"])(_other_seed(k, d))


def _drm(dn, d, transpose, what):
    def f(e):
        shape = e.shape(d)
        r, s = ranks(e, "r", d), e.seed("s")
        if what == "same":
            def g():
                D = drm(e, dn, shape, r, transpose, s)
                return [D.seed] + mats(e, D, shape)
            twice(e, "the matrices", g)
            if dn in ("DenseGaussianDRM", "SparseGaussianDRM"):
                q = tuple(a + b for a, b in zip(r, ranks(e, "q", d)))
                twice(e, "the enlarged matrices", lambda: mats(e, drm(e, dn, shape, r, transpose, s).increase_rank(q), shape))
        else:
            t = e.seed("t")
            e.differ((s,), (t,))
            e.distinct_random("matrices for different seeds", mats(e, drm(e, dn, shape, r, transpose, s), shape), mats(e, drm(e, dn, shape, r, transpose, t), shape), pairwise=True)
    return f


for dn in DRMS:
    for d in (2, 3):
        for tr in (False, True):
            for w in ("same", "other"):
                scenario("C20", f"{dn} {'right' if tr else 'left'} order {d}: {w} seed", d=d, fns=[dn + ".__init__", "DRM.__init__"])(_drm(dn, d, tr, w))


def _sketch(fn, dn, kind, d):
    def f(e):
        shape = e.shape(d)
        X, _ = e.make(kind, "X", shape)
        l, r, s = ranks(e, "l", d), ranks(e, "r", d), e.seed("s")
        for a, b in zip(l, r):
            e.assume(a < b)
        T = getattr(e.drm, dn) if dn else None
        if fn == "stream":
            kw = dict(left_drm_type=T, right_drm_type=T) if T else {}

            def g():
                S = e.sketch.stream_sketch(X, l, r, seed=s, **kw)
                return list(S.Psi_cores) + list(S.Omega_mats)
            twice(e, "stream_sketch", g)
        elif fn == "orth":
            kw = dict(left_drm_type=T, right_drm_type=T) if T else {}
            twice(e, "orthogonal_sketch", lambda: e.sketch.orthogonal_sketch(X, l, r, seed=s, **kw).cores)
        elif fn == "hmt":
            kw = dict(drm_type=T) if T else {}
            twice(e, "hmt_sketch", lambda: e.sketch.hmt_sketch(X, r, seed=s, **kw).cores)
        else:
            # the two DRMs of one call
            kw = dict(left_drm_type=T, right_drm_type=T) if T else {}
            call = e.sketch.stream_sketch if fn == "pair" else e.sketch.orthogonal_sketch
            _, L, R = call(X, l, r, seed=s, return_drm=True, **kw)
            A, B = mats(e, L, shape), mats(e, R, shape)
            e.distinct_random("left and right matrices", A, B)
    return f


for fn in ("stream", "orth", "hmt", "pair", "orthpair"):
    for dn, kind in (("TensorTrainDRM", "tt"), ("DenseGaussianDRM", "dense"), ("SparseGaussianDRM", "sparse"), ("SparseSignDRM", "sparse"), (None, "cp")):
        for d in (2, 3):
            name = {"stream": "stream_sketch", "orth": "orthogonal_sketch", "hmt": "hmt_sketch"}.get(fn)
            scenario("C20", f"{fn} {dn or 'default DRM'} of {kind} order {d}", d=d, fns=[name or ("stream_sketch" if fn == "pair" else "orthogonal_sketch")],
                     tier="quick" if d == 2 or fn in ("stream", "pair") else "thorough")(_sketch(fn, dn, kind, d))
