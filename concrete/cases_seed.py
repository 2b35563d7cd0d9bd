"""C20: seeds."""
import gc, hashlib, os, random, subprocess, threading, warnings
from .common import *
from .cases_sketch import SUPPORT, arrays, drm_mats, rank_pair
from tt_sketch.drm import ALL_DRM, DenseGaussianDRM, SparseGaussianDRM, SparseSignDRM, TensorTrainDRM
from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch
from tt_sketch.utils import MultithreadedRNG, random_normal
import tt_sketch.utils as U


def feed(h, o):
    if o is None:
        h.update(b"none")
    elif isinstance(o, np.ndarray):
        h.update(repr((o.shape, str(o.dtype))).encode())
        h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (list, tuple)):
        for x in o:
            feed(h, x)
    elif type(o).__name__ in ("TensorTrain", "CPTensor"):
        feed(h, list(o.cores))
    elif type(o).__name__ == "TuckerTensor":
        feed(h, [o.core] + list(o.factors))
    elif type(o).__name__ == "SparseTensor":
        feed(h, [np.asarray(o.indices), o.entries])
    elif type(o).__name__ == "DenseTensor":
        feed(h, o.data)
    elif type(o).__name__ == "SketchedTensorTrain":
        feed(h, arrays(o))
    elif hasattr(o, "sketch_sparse"):
        feed(h, [drm_mats(o, o.shape, o.transpose)])
    else:
        h.update(repr(o).encode())


def digest(o):
    h = hashlib.sha256()
    feed(h, o)
    return h.hexdigest()[:16]


def configs(g):
    """Named seeded computations; the inputs are drawn from g alone."""
    shape = g.shape(2, 5, total=120)
    d = len(shape)
    seed = g.pick([0, 1, 7, 2**31, 2**32 - 3, g.i(0, 2**32 - 3)])
    if g.coin(0.3):
        seed = g.pick([np.int64, np.uint32])(seed)
    left, right = rank_pair(g, shape)
    rk = g.ranks(shape)
    X = {f: getattr(g, f)(shape) for f in g.FORMATS}
    n = int(np.prod(shape))
    out = [
        ("TensorTrain.random", lambda s: TensorTrain.random(shape, rk, seed=s)),
        ("TensorTrain.random orthogonal", lambda s: TensorTrain.random(shape, rk, seed=s, orthog=True, norm_goal="norm-preserve")),
        ("CPTensor.random", lambda s: CPTensor.random(shape, 3, seed=s)),
        ("TuckerTensor.random", lambda s: TuckerTensor.random(shape, 2, seed=s)),
        ("SparseTensor.random", lambda s: SparseTensor.random(shape, max(1, n // 2), seed=s)),
        ("random_normal", lambda s: random_normal((5, 7), seed=s)),
        ("power_decay_tensor", lambda s: U.power_decay_tensor((6, 5), seed=s) if hasattr(U, "power_decay_tensor") else None),
    ]
    for t in ALL_DRM:
        out.append((t.__name__ + " left", lambda s, t=t: t(left, shape, False, seed=s)))
        out.append((t.__name__ + " right", lambda s, t=t: t(right, shape, True, seed=s)))
        for f in SUPPORT[t]:
            out.append((f"stream_sketch {t.__name__} {f}", lambda s, t=t, f=f: stream_sketch(X[f], left, right, seed=s, left_drm_type=t, right_drm_type=t)))
            out.append((f"hmt_sketch {t.__name__} {f}", lambda s, t=t, f=f: hmt_sketch(X[f], left, seed=s, drm_type=t)))
            if all(a < b for a, b in zip(left, right)):
                out.append((f"orthogonal_sketch {t.__name__} {f}", lambda s, t=t, f=f: orthogonal_sketch(X[f], left, right, seed=s, left_drm_type=t, right_drm_type=t)))
    for f in g.FORMATS:
        out.append((f"stream_sketch default {f}", lambda s, f=f: stream_sketch(X[f], left, right, seed=s)))
    for t in (DenseGaussianDRM, SparseGaussianDRM):
        out.append((f"{t.__name__}.increase_rank", lambda s, t=t: t(left, shape, False, seed=s).increase_rank(tuple(r + 1 for r in left))))
        out.append((f"{t.__name__}.slice", lambda s, t=t: t(left, shape, False, seed=s).slice((0,) * (d - 1), left)))
    return seed, shape, out


def disturb(g):
    np.random.seed(g.i(0, 10**6))
    np.random.normal(size=g.i(1, 50))
    [TensorTrain.random((2, 3), 2) for _ in range(g.i(0, 2))]
    TensorTrainDRM(2, (3, 3), False)
    SparseGaussianDRM(2, (3, 3), True)


class Surroundings:
    """Other state of the process that results must not depend on: running threads, random number generators,
    printing and error options, the working directory, the environment, garbage."""

    def __init__(self, g):
        self.g = g

    def __enter__(self):
        g = self.g
        self.stop = threading.Event()
        self.threads = [threading.Thread(target=self.stop.wait, daemon=g.coin()) for _ in range(g.i(0, 3))]
        for t in self.threads:
            t.start()
        random.seed(g.i(0, 10**6))
        self.print = np.get_printoptions()
        np.set_printoptions(precision=g.i(1, 8), threshold=g.i(1, 1000), suppress=g.coin())
        self.err = np.seterr(all=g.pick(["ignore", "warn"]))
        self.keep = [np.empty(g.i(1, 5000)) for _ in range(g.i(0, 20))]
        self.env = dict(os.environ)
        if g.coin(0.3):
            os.environ["COLUMNS"] = str(g.i(20, 200))
        if g.coin(0.3):
            gc.collect()
        return self

    def __exit__(self, *a):
        self.stop.set()
        for t in self.threads:
            t.join()
        np.set_printoptions(**self.print)
        np.seterr(**self.err)
        os.environ.clear()
        os.environ.update(self.env)


@case("C20", 2)
def repeatable(g):
    seed, shape, cf = configs(g)
    p = g.r.permutation(len(cf))[:12]
    cf = [cf[i] for i in p]
    np.random.seed(0)
    np.random.normal(size=g.i(0, 3))
    a = [digest(f(seed)) for _, f in cf]
    disturb(g)
    order = g.r.permutation(len(cf))
    for i in order:
        if g.coin(0.3):
            disturb(g)
        if g.coin(0.4):
            with warnings.catch_warnings(), Surroundings(g):
                warnings.simplefilter("ignore")
                b = digest(cf[i][1](seed))
        else:
            b = digest(cf[i][1](seed))
        req(a[i] == b, f"{cf[i][0]} with seed {seed} gives different results in one process")


def child_digests(seed):
    g = Gen(seed)
    s, shape, cf = configs(g)
    return s, [n for n, _ in cf], [digest(f(s)) for _, f in cf]


@case("C20", 0.04)
def processes(g):
    base = g.i(0, 10**6)
    s, names, here = child_digests(base)
    for hs in ("1", "2", "random"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        code = ("import sys,json,io\nsys.argv=['x']\nfrom concrete import main\nmain.load()\nfrom concrete.cases_seed import child_digests\n"
                f"import numpy as np\nnp.random.seed({g.i(0, 1000)})\nprint(json.dumps(child_digests({base})[2]))")
        import sys
        r = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("child failed: " + r.stderr[-500:])
        there = json.loads(r.stdout.strip().splitlines()[-1])
        for n, x, y in zip(names, here, there):
            req(x == y, f"{n} with seed {s} gives different results in another process")


def flat(o):
    return np.concatenate([np.ravel(m) for m in drm_mats(o, o.shape, o.transpose)])


@case("C20", 2)
def distinct(g):
    shape = g.shape(2, 4, total=120)
    left, right = rank_pair(g, shape)
    t = g.pick([TensorTrainDRM, DenseGaussianDRM, SparseGaussianDRM, SparseSignDRM])
    s1 = g.i(0, 2**32 - 3)
    s2 = g.pick([(s1 + 1) % (2**32 - 2), (s1 + 2) % (2**32 - 2), g.i(0, 2**32 - 3), s1 ^ (1 << g.i(0, 30))])
    if s1 == s2 or s2 >= 2**32 - 1:
        raise Skip
    g.note(drm=t.__name__, s1=s1, s2=s2)
    for tr, rk in ((False, left), (True, right)):
        a, b = flat(t(rk, shape, tr, seed=s1)), flat(t(rk, shape, tr, seed=s2))
        if t is SparseSignDRM and a.size < 120:
            continue
        req(not np.array_equal(a, b), f"{t.__name__} is the same for seeds {s1} and {s2}")
    for f, n in ((lambda s: digest(TensorTrain.random(shape, 2, seed=s)), "TensorTrain.random"), (lambda s: digest(CPTensor.random(shape, 2, seed=s)), "CPTensor.random"),
                 (lambda s: digest(TuckerTensor.random(shape, 2, seed=s)), "TuckerTensor.random"), (lambda s: digest(SparseTensor.random(shape, 1, seed=s).entries), "SparseTensor.random")):
        req(f(s1) != f(s2), f"{n} is the same for seeds {s1} and {s2}")


@case("C20", 2)
def left_right(g):
    """The two DRMs of one call are different random matrices."""
    half = [g.i(2, 4) for _ in range(g.i(1, 2))]
    shape = tuple(half + half[::-1])
    if np.prod(shape) > 150:
        raise Skip
    t = g.pick([TensorTrainDRM, DenseGaussianDRM, SparseGaussianDRM])
    seed = g.pick([0, 1, 2**32 - 1, 2**32 - 5, g.i(0, 2**32 - 1)])
    g.note(shape=shape, drm=t.__name__, seed=seed)
    X = g.sparse(shape, 3)
    s, L, R = stream_sketch(X, 2, 4, seed=seed, left_drm_type=t, right_drm_type=t, return_drm=True)
    X2 = g.tt(shape, plain=True)
    pairs = [(L, R)]
    if t is not SparseGaussianDRM:
        o, L2, R2 = orthogonal_sketch(X2, 2, 4, seed=seed, left_drm_type=t, right_drm_type=t, return_drm=True)
        pairs.append((L2, R2))
    for L, R in pairs:
        Y, Z = drm_mats(L, shape, False), drm_mats(R, shape, True)
        d = len(shape)
        for k in range(d - 1):
            j = d - 2 - k
            sh = shape[j + 1:]
            z = Z[j].reshape(sh + (-1,))
            z = np.transpose(z, tuple(range(len(sh)))[::-1] + (len(sh),)).reshape(Y[k].shape[0], -1)
            y = Y[k]
            c = min(y.shape[1], z.shape[1])
            req(not np.allclose(y[:, :c], z[:, :c], rtol=1e-6, atol=0), f"left and right {t.__name__} coincide")
            if t is not TensorTrainDRM:
                req(not np.any(y[:, :c] == z[:, :c]), f"left and right {t.__name__} share entries")
