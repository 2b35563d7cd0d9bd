"""The same arguments in other integer and sequence types, and the same call from several threads at once."""
import threading
from .common import *
from .cases_stale import calm, out, stable
from .cases_sketch import SUPPORT, make_drms, rank_pair
from .cases_tensor import process_ref
from tt_sketch.drm import ALL_DRM
from tt_sketch.sketch import blocked_stream_sketch, hmt_sketch, orthogonal_sketch, stream_sketch
from tt_sketch.tt_gmres import round_tt_sum
from tt_sketch.tt_svd import tt_svd
from tt_sketch.utils import process_tt_rank, trim_ranks


def spellings(g, r, d, kinds=(np.int64, np.int32, np.int16, np.uint8)):
    """the rank r (int or tuple) in other types"""
    kinds = list(kinds)
    t = g.pick(kinds)
    if isinstance(r, int):
        xs = [t(r), (r,) * (d - 1), [r] * (d - 1), np.full(d - 1, r, dtype=t)]
    else:
        xs = [list(r), np.array(r, dtype=t), tuple(t(x) for x in r), [t(x) for x in r]]
    return g.pick(xs)


def argument_types(prop, weight=1):
    def deco(f):
        def argument_types(g):
            f(g)
        return case(prop, weight)(argument_types)
    return deco


def rank(g, d, hi=5):
    return g.i(1, hi) if g.coin() else tuple(g.i(1, hi) for _ in range(d - 1))


def agree(a, b, what, tol=1e-9):
    x, y = out(a), out(b)
    close(x, y, what, tol, np.linalg.norm(y) + 1e-300)
    for k in () if isinstance(a, CPTensor) else ("rank", "left_rank", "right_rank"):
        if hasattr(a, k):
            same(tup(getattr(a, k)), tup(getattr(b, k)), f"{k}: {what}")


@argument_types("C11", 2)
def _(g):
    shape = g.shape(2, 6)
    r = rank(g, len(shape), 12)
    s = spellings(g, r, len(shape))
    g.note(r=r, spelled=s)
    same(tup(process_tt_rank(s, shape, trim=True)), tup(process_tt_rank(r, shape, trim=True)), f"rank {s!r} trimmed")
    same(tup(process_tt_rank(s, shape, trim=False)), tup(r if isinstance(r, tuple) else (r,) * (len(shape) - 1)), f"rank {s!r}")


@argument_types("C08")
def _(g):
    X = calm(g, g.tt(g.shape(2, 5, total=150), plain=True))
    r = rank(g, X.ndim)
    s = spellings(g, r, X.ndim)
    g.note(r=r, spelled=s)
    agree(X.round(max_rank=s), X.round(max_rank=r), f"rounding to rank {s!r}")
    agree(X.round(np.float64(1e-3), s), X.round(1e-3, r), f"rounding to rank {s!r} with a threshold")


@argument_types("C09")
def _(g):
    X = calm(g, g.plainfmt(g.shape(2, 5, total=100)))
    r = rank(g, X.ndim)
    s = spellings(g, r, X.ndim)
    g.note(r=r, spelled=s)
    agree(tt_svd(X, s), tt_svd(X, r), f"TT-SVD at rank {s!r}")


@argument_types("C05")
def _(g):
    X = calm(g, g.sparse(g.shape(1, 4)))
    n = g.i(1, max(1, min(12, X.nnz)))
    for t in (np.int64, np.int32):
        a, b = X.split(t(n)), X.split(n)
        same(len(a.tensors), len(b.tensors), "number of parts")
        agree(a, b, f"split into {t.__name__}({n})")
        same([y.nnz for y in a.tensors], [y.nnz for y in b.tensors], "entries of the parts")


@argument_types("C13")
def _(g):
    shape = g.shape(2, 4, total=80)
    lt = g.pick(ALL_DRM)
    X = calm(g, getattr(g, g.pick(SUPPORT[lt]))(shape))
    d = len(shape)
    if g.coin():
        l = g.i(1, 3)
        r = l + g.i(1, 3)
    else:
        l = tuple(g.i(1, 3) for _ in range(d - 1))
        r = tuple(x + g.i(1, 2) for x in l)
    w = (np.int64, np.int32)      # (square roots of narrower integers are taken in half or single precision by numpy)
    sl, sr = spellings(g, l, d, w), spellings(g, r, d, w)
    g.note(drm=lt.__name__, l=sl, r=sr)
    sd = g.i(0, 10**6)
    agree(stream_sketch(X, sl, sr, seed=sd, left_drm_type=lt, right_drm_type=lt),
          stream_sketch(X, l, r, seed=sd, left_drm_type=lt, right_drm_type=lt), f"sketch of rank {sl!r}, {sr!r}")


@argument_types("C16")
def _(g):
    shape = g.shape(2, 4, total=80)
    X = calm(g, g.plainfmt(shape))
    l = rank(g, len(shape), 3)
    r = l + 2 if isinstance(l, int) else tuple(x + 2 for x in l)
    w = (np.int64, np.int32)
    sl, sr = spellings(g, l, len(shape), w), spellings(g, r, len(shape), w)
    g.note(l=sl, r=sr)
    sd = g.i(0, 10**6)
    stable(g, X, lambda x: hmt_sketch(x, l, seed=sd), 1e-6)
    agree(hmt_sketch(X, sl, seed=sd), hmt_sketch(X, l, seed=sd), f"HMT sketch of rank {sl!r}", 1e-6)
    stable(g, X, lambda x: orthogonal_sketch(x, l, r, seed=sd), 1e-6)
    agree(orthogonal_sketch(X, sl, sr, seed=sd), orthogonal_sketch(X, l, r, seed=sd), f"orthogonal sketch of rank {sl!r}, {sr!r}", 1e-6)


@argument_types("C22")
def _(g):
    shape = g.shape(2, 4, total=100)
    S = TensorSum([calm(g, g.tt(shape, plain=True, hi=2)) for _ in range(g.i(1, 3))])
    r = rank(g, len(shape))
    s = spellings(g, r, len(shape))
    g.note(r=r, spelled=s)
    for m in ("exact", "pairwise"):
        agree(round_tt_sum(S, s, method=m), round_tt_sum(S, r, method=m), f"{m} rounding to rank {s!r}", 1e-7)


@argument_types("C24")
def _(g):
    shape = g.shape(2, 5)
    r = rank(g, len(shape))
    s = spellings(g, r, len(shape), (np.int64, np.int32))
    sh = g.pick([shape, list(shape), tuple(np.int64(n) for n in shape), tuple(np.int32(n) for n in shape)])
    g.note(r=r, spelled=s, shape=sh)
    for o, tr in ((False, False), (False, True), (True, True)):
        a, b = (TensorTrain.random(q, z, seed=5, orthog=o, trim=tr) for q, z in ((tuple(sh), s), (shape, r)))
        agree(a, b, f"random tensor train of shape {sh!r} and rank {s!r}")
    same(tup(TensorTrain.zero(tuple(sh), s).rank), tup(TensorTrain.zero(shape, r).rank), f"zero tensor train of rank {s!r}")
    n = g.i(0, int(np.prod(shape)))
    agree(SparseTensor.random(tuple(sh), np.int64(n), seed=3), SparseTensor.random(shape, n, seed=3), f"random sparse tensor of shape {sh!r}")
    agree(CPTensor.random(tuple(sh), np.int64(3), seed=3), CPTensor.random(shape, 3, seed=3), f"random CP tensor of shape {sh!r}")


# ------------------------------------------------------------------ several threads at once
def together(jobs, what):
    """Run the jobs one after another, then all at once; every result must be the same."""
    want = [j() for j in jobs]
    got = [None] * len(jobs)
    errs = []
    start = threading.Barrier(len(jobs))

    def work(i):
        try:
            start.wait(20)
            for _ in range(2):
                got[i] = jobs[i]()
        except threading.BrokenBarrierError:
            got[i] = want[i]
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    for e in errs:
        raise e
    for i, (a, b) in enumerate(zip(got, want)):
        if a is None:
            continue
        same(np.asarray(a).shape, np.asarray(b).shape, f"{what}: shape of the result of call {i} among {len(jobs)} at once")
        req(np.array_equal(np.asarray(a), np.asarray(b)), f"{what}: call {i} among {len(jobs)} at the same time gives another result")


def at_once(prop, weight=1):
    def deco(f):
        def at_once(g):
            f(g)
        return case(prop, weight)(at_once)
    return deco


def coords(g):
    shape = tuple(g.i(2, 40) for _ in range(g.i(1, 4)))
    N = g.i(1, 3000)
    inds = np.array([[g.i(0, n - 1)] for n in shape]) * 0 + np.array([g.r.integers(0, n, size=N) for n in shape])
    return shape, inds.astype(np.int64)


@at_once("C18", 0.5)
def _(g):
    from tt_sketch.drm.fast_lazy_gaussian import inds_to_normal
    jobs = []
    for _ in range(g.i(2, 6)):
        shape, inds = coords(g)
        a = g.i(0, 4)
        b, sd = a + g.i(1, 9), g.i(0, 2**32 - 1)
        jobs.append(lambda shape=shape, inds=inds, a=a, b=b, sd=sd: np.array(inds_to_normal(inds, shape, a, b, sd)))
    together(jobs, "lazy Gaussian entries")


@at_once("C19", 0.5)
def _(g):
    from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign
    jobs = []
    for _ in range(g.i(2, 6)):
        shape, inds = coords(g)
        r = g.i(1, 12)
        z, sd = g.i(1, r), g.i(0, 2**32 - 1)
        jobs.append(lambda shape=shape, inds=inds, r=r, z=z, sd=sd: np.array(inds_to_sparse_sign(inds, shape, r, 0, r, z, sd)))
    together(jobs, "sparse sign entries")


@at_once("C13", 0.5)
def _(g):
    jobs = []
    for _ in range(g.i(2, 5)):
        shape = g.shape(2, 4, total=80)
        lt = g.pick(ALL_DRM)
        left, right = rank_pair(g, shape)
        L, R = make_drms(g, shape, left, right, lt)
        X = calm(g, getattr(g, g.pick(SUPPORT[lt]))(shape))
        jobs.append(lambda X=X, l=left, r=right, L=L, R=R: out(stream_sketch(X, l, r, left_drm=L, right_drm=R)))
    together(jobs, "sketches with given DRMs")


@at_once("C05", 0.5)
def _(g):
    jobs = []
    for _ in range(g.i(2, 5)):
        shape = g.shape(1, 5)
        X = calm(g, getattr(g, g.pick(["sparse", "tt", "cp"]))(shape))
        idx = tuple(np.array([g.i(0, m - 1) for _ in range(50)]) for m in shape)
        jobs.append(lambda X=X, idx=idx: np.asarray(X.gather(idx)))
    together(jobs, "gathered entries")


@at_once("C07", 0.5)
def _(g):
    jobs = []
    for _ in range(g.i(2, 5)):
        X = calm(g, g.tt(g.shape(2, 5, total=150), plain=True))
        jobs.append(lambda X=X: out(X.orthogonalize()))
    together(jobs, "orthogonalized tensor trains")
