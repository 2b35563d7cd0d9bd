"""C18, C19: lazily generated matrices."""
from .common import *
from tt_sketch.drm import SparseGaussianDRM, SparseSignDRM
from tt_sketch.drm.fast_lazy_gaussian import hash_int_c, inds_to_normal, inds_to_sparse_sign

M64 = (1 << 64) - 1


def code_hash(xs):
    a = np.array(xs, dtype=np.uint64)
    hash_int_c(a)
    return [int(x) for x in a]


def unhash(y):
    """Inverse of the hash as specified (used only to aim at unusual random words)."""
    def unshift(y, s):
        x = y
        for _ in range(64 // s + 1):
            x = y ^ (x >> s)
        return x & M64
    y = unshift(y, 31)
    y = (y * pow(0x94D049BB133111EB, -1, 1 << 64)) & M64
    y = unshift(y, 27)
    y = (y * pow(0xBF58476D1CE4E5B9, -1, 1 << 64)) & M64
    y = unshift(y, 30)
    return (y - 0x4BE98134A5976FD3) & M64


def aimed_seed(g, mantissa, col):
    """A seed whose word at index 0, column col has the given 52 low bits."""
    salt = code_hash([col])[0]
    for _ in range(200):
        top = g.i(0, 4095)
        s = (unhash((top << 52) | mantissa) - salt) & M64
        if s < 2**63:
            return s
    return 12345


def big_shape(g):
    k = g.i(0, 5)
    if k == 0:
        d = g.i(1, 4)
        s = tuple(g.i(1, 7) for _ in range(d))
    elif k == 1:
        s = tuple(g.pick([1, 2, 2**16, 2**20, 10**5]) for _ in range(3))
    elif k == 2:
        s = (2**g.i(20, 33), 2**g.i(20, 30))
    elif k == 3:
        s = (g.i(2, 9),) * g.i(2, 15)
    elif k == 4:
        s = (2**31 + 5, 2**31, 3)
    else:
        s = tuple(g.i(1, 2000) for _ in range(5))
    if g.hint.get("shape") and g.coin(0.3):
        s = tuple(max(1, int(x)) for x in g.hint["shape"])
    p = 1
    out = []
    for x in s:
        if p * x >= 2**64:
            break
        p *= x
        out.append(int(x))
    g.note(shape=tuple(out))
    return tuple(out)


def some_inds(g, shape, N):
    rows = set()
    for _ in range(3 * N):
        if len(rows) >= N:
            break
        k = g.i(0, 3)
        if k == 0:
            r = tuple(g.i(0, s - 1) for s in shape)
        elif k == 1 and rows:
            # neighbours whose flat numbers differ by powers of two
            r = list(g.pick(sorted(rows)))
            j = g.i(0, len(shape) - 1)
            r[j] = (r[j] ^ (1 << g.i(0, 34))) % shape[j]
            r = tuple(r)
        elif k == 2:
            r = tuple(g.pick([0, s - 1, s // 2]) for s in shape)
        else:
            r = tuple(g.i(0, min(3, s - 1)) for s in shape)
        rows.add(r)
    rows = sorted(rows)
    g.r.shuffle(rows)
    return np.array(rows, dtype=np.int64).T.reshape(len(shape), -1)


def a_seed(g):
    return g.pick([0, 1, 2**32 - 2, 2**63 - 1, g.i(0, 2**32 - 2), g.i(0, 2**62)])


@case("C18", 8)
def lazily(g):
    shape = big_shape(g)
    N = g.n(1, 12, 500)
    inds = some_inds(g, shape, N)
    N = inds.shape[1]
    lo = g.pick([0, 0, g.i(0, 5), g.i(0, 300)])
    hi = lo + g.n(1, 9, 200)
    seed = a_seed(g)
    g.note(N=N, lo=lo, hi=hi, seed=seed)
    fr = Frame(inds)
    A = np.array(inds_to_normal(inds, shape, lo, hi, seed))
    fr.check("inds_to_normal")
    same(A.shape, (N, hi - lo), "shape of the lazy Gaussian matrix")
    req(np.all(np.isfinite(A)), "non-finite entry")
    req(np.array_equal(A, inds_to_normal(inds, shape, lo, hi, seed)), "not reproducible")
    p = g.r.permutation(N)
    req(np.array_equal(A[p], inds_to_normal(inds[:, p], shape, lo, hi, seed)), "depends on the order of the indices")
    k = g.i(0, N - 1)
    req(np.array_equal(A[k:k + 1], inds_to_normal(inds[:, k:k + 1], shape, lo, hi, seed)), "depends on the other indices")
    dup = np.array([k, k, 0])
    req(np.array_equal(A[dup], inds_to_normal(inds[:, dup], shape, lo, hi, seed)), "depends on repetitions")
    a = g.i(lo, hi)
    b = g.i(a, hi)
    req(np.array_equal(A[:, a - lo:b - lo], np.array(inds_to_normal(inds, shape, a, b, seed))), "depends on the column range")
    a = g.i(0, lo)
    b = hi + g.i(0, 4)
    req(np.array_equal(A, np.array(inds_to_normal(inds, shape, a, b, seed))[:, lo - a:hi - a]), "depends on the column range")
    W = np.array(inds_to_normal(inds, shape, lo, lo + 4, seed))
    req(len({tuple(r) for r in W}) == N, "two distinct multi-indices have the same entries")
    req(all(len(set(r)) == 4 for r in W), "two columns have the same entries")


@case("C18", 2)
def grid(g):
    """Every multi-index of a small grid has its own row."""
    shape = g.shape(1, 5, total=250)
    n = int(np.prod(shape))
    inds = np.array(np.unravel_index(np.arange(n), shape)).reshape(len(shape), n)
    seed = a_seed(g)
    A = np.array(inds_to_normal(inds, shape, 0, 5, seed))
    req(len(set(A.ravel())) == A.size, "two entries of the lazy Gaussian matrix coincide")
    req(np.all(np.isfinite(A)), "non-finite entry")
    B = np.array(inds_to_normal(inds, shape, 0, 5, (seed + 1 + g.i(0, 10**6)) % 2**63))
    req(not np.any(A[0] == B[0]), "another seed gives the same entries")


@case("C18", 2)
def extreme_words(g):
    m = g.pick([0, 2**52 - 1, 1, 2**52 - 2, 2**51, g.i(0, 2**52 - 1)])
    if "mantissa" in g.hint:
        m = g.hint["mantissa"]
    col = g.pick([0, 0, 3])
    s = aimed_seed(g, m, col)
    g.note(mantissa=m, seed=s, col=col)
    A = np.array(inds_to_normal(np.array([[0, 1]]), (7,), 0, col + 2, s))
    req(np.all(np.isfinite(A)), f"non-finite entry for random word with mantissa {m:#x}")
    x = g.pick([2**52 - 1, 0])
    s = aimed_seed(g, x, col)
    B = np.array(inds_to_normal(np.array([[0]]), (7,), col, col + 1, s))
    req(np.all(np.isfinite(B)), f"non-finite entry for random word with mantissa {x:#x}")


@case("C18", 1)
def hash_pair(g):
    """the two words the verifier found to have one hash: two multi-indices (or columns) then share their entries"""
    if "words" not in g.hint:
        raise Skip()
    x, y = (int(w) for w in g.hint["words"])
    hx, hy = code_hash([x, y])
    g.note(words=[x, y], hashes=[hx, hy])
    req(x == y or hx != hy, f"the hash maps the distinct words {x:#x} and {y:#x} to the same word")


@case("C18", 2)
def hash_injective(g):
    base = [g.i(0, 2**62), 0, 1, 2**63, M64, g.i(0, 1000)]
    xs = set()
    for b in base:
        xs.add(b)
        for k in range(64):
            xs.add(b ^ (1 << k))
            xs.add((b + (1 << k)) & M64)
    xs = sorted(xs)
    hs = code_hash(xs)
    req(len(set(hs)) == len(xs), "the hash maps two words to the same word")
    p = g.r.permutation(len(xs))[:20]
    same(code_hash([xs[i] for i in p]), [hs[i] for i in p], "hash of a word depends on the other words")


@case("C18", 5)
def drm(g):
    shape = g.shape(2, 5, total=300) if g.coin(0.6) else g.pick([(2**20, 2**20, 2**10, 4), (10**6, 10**6, 10**6), (2**32, 2**31), (50000, 50000, 7)])
    d = len(shape)
    N = g.i(1, 10)
    inds = some_inds(g, shape, N)
    N = inds.shape[1]
    rank = tuple(g.n(1, 5, 60) for _ in shape[1:])
    seed = g.i(0, 2**32 - 2)
    tr = g.coin()
    g.note(shape=shape, rank=rank, seed=seed, transpose=tr)
    D = SparseGaussianDRM(rank, shape, transpose=tr, seed=seed)
    X = SparseTensor(shape, inds, np.ones(N))
    fr = Frame(X, D)
    M = [np.array(m) for m in D.sketch_sparse(X)]
    fr.check("sketch_sparse")
    for k in range(d - 1):
        same(M[k].shape, (rank[k], N), "shape of the sketch")
        req(np.all(np.isfinite(M[k])), "non-finite entry")
        part = inds[:k + 1] if not tr else inds[k + 1:]
        rows = {}
        for j in range(N):
            key = tuple(part[:, j])
            if key in rows:
                req(np.array_equal(rows[key], M[k][:, j]), "entries depend on more than the multi-index")
            rows[key] = M[k][:, j]
        req(len({tuple(v) for v in rows.values()}) == len(rows), "two distinct multi-indices have the same entries")
    p = g.r.permutation(N)[:g.i(1, N)]
    M2 = [np.array(m) for m in D.sketch_sparse(SparseTensor(shape, inds[:, p], np.ones(len(p))))]
    for a, b in zip(M, M2):
        req(np.array_equal(a[:, p], b), "depends on the other indices requested")
    a = tuple(g.i(0, r) for r in rank)
    b = tuple(g.i(x, r) for x, r in zip(a, rank))
    for m, s, x, y in zip(M, D.slice(a, b).sketch_sparse(X), a, b):
        req(np.array_equal(m[x:y], s), "depends on the column range")
    big = D.increase_rank(tuple(r + 2 for r in rank))
    for m, s, r in zip(M, big.sketch_sparse(X), rank):
        req(np.array_equal(m, s[:r]), "depends on the number of columns")


# ---------------------------------------------------------------- C19
def check_rows(S, nnz, rank, what):
    S = np.asarray(S)
    same(S.shape[1], rank, what + ": number of columns")
    req(np.all((S == 0) | (S == 1) | (S == -1)), what + ": entries other than 0, 1, -1")
    cnt = np.count_nonzero(S, axis=1)
    req(np.all(cnt == min(nnz, rank)), f"{what}: rows with {sorted(set(cnt.tolist()))} nonzeros instead of {min(nnz, rank)}")


@case("C19", 8)
def signs(g):
    shape = big_shape(g)
    inds = some_inds(g, shape, g.n(1, 12, 500))
    N = inds.shape[1]
    rank = g.pick([1, 2, g.i(1, 8), g.i(1, 40), 300])
    nnz = g.pick([0, 1, rank, rank - 1, g.i(0, rank), g.i(0, rank), rank + g.i(1, 3), 3 * rank])
    seed = a_seed(g)
    g.note(N=N, rank=rank, nnz=nnz, seed=seed)
    fr = Frame(inds)
    f = lambda I, lo=0, hi=rank: np.array(inds_to_sparse_sign(I, shape, rank, lo, hi, nnz, seed))
    S = f(inds)
    fr.check("inds_to_sparse_sign")
    same(S.shape[0], N, "number of rows")
    check_rows(S, nnz, rank, "sparse sign matrix")
    req(np.array_equal(S, f(inds)), "not reproducible")
    a = g.i(0, rank)
    b = g.i(a, rank)
    req(np.array_equal(S[:, a:b], f(inds, a, b)), "column slice differs from the part of the whole matrix")
    p = g.r.permutation(N)[:g.i(1, N)]
    req(np.array_equal(S[p], f(inds[:, p])), "depends on the other indices")
    req(np.array_equal(S[[0, 0]], f(inds[:, [0, 0]])), "depends on repetitions")


@case("C19", 2)
def spread(g):
    """Signs and positions vary over the rows (fixed seeds: a deterministic check)."""
    rank = g.i(2, 9)
    nnz = g.i(1, rank - 1)
    n = 4000
    S = np.array(inds_to_sparse_sign(np.arange(n).reshape(1, n), (n,), rank, 0, rank, nnz, a_seed(g)))
    check_rows(S, nnz, rank, "sparse sign matrix")
    req(np.all(np.any(S == 1, axis=0)) and np.all(np.any(S == -1, axis=0)), "a column never takes one of the values 1, -1")


@case("C19", 3)
def extreme_signs(g):
    rank = g.pick([1, 2, 3, 5, 8, 100])
    nnz = g.pick([1, rank, g.i(1, rank)])
    col = g.i(0, nnz - 1)
    m = g.pick([2**52 - 1, 2**52 - 1, 0, 2**52 - 2])
    if "mantissa" in g.hint:
        m = g.hint["mantissa"]
    s = aimed_seed(g, m, col)
    N = g.i(1, 3)
    g.note(rank=rank, nnz=nnz, col=col, mantissa=m, seed=s, N=N)
    S = np.array(inds_to_sparse_sign(np.arange(N).reshape(1, N), (9,), rank, 0, rank, nnz, s))
    check_rows(S, nnz, rank, "sparse sign matrix")


@case("C19", 5)
def sign_drm(g):
    shape = g.shape(2, 5, total=300) if g.coin(0.7) else g.pick([(2**20, 2**20, 2**10, 4), (10**6, 10**6, 10**6), (2**32, 2**31)])
    d = len(shape)
    inds = some_inds(g, shape, g.i(1, 10))
    N = inds.shape[1]
    rank = tuple(g.i(1, 7) for _ in shape[1:])
    nnz = g.pick([None, tuple(g.i(0, r + 1) for r in rank), tuple(g.i(1, r) for r in rank)])
    seed = g.i(0, 2**32 - 2)
    tr = g.coin()
    g.note(shape=shape, rank=rank, nnz=nnz, seed=seed, transpose=tr)
    kw = {} if nnz is None else dict(num_non_zero_per_row=nnz)
    D = SparseSignDRM(rank, shape, transpose=tr, seed=seed, **kw)
    X = SparseTensor(shape, inds, np.ones(N))
    fr = Frame(X, D)
    M = [np.array(m) for m in D.sketch_sparse(X)]
    fr.check("sketch_sparse")
    same(len(M), d - 1, "number of sketches")
    for k in range(d - 1):
        same(M[k].shape, (rank[k], N), "shape of the sketch")
        check_rows(M[k].T, rank[k] if nnz is None else nnz[k], rank[k], f"bond {k}")
        part = inds[:k + 1] if not tr else inds[k + 1:]
        rows = {}
        for j in range(N):
            key = tuple(part[:, j])
            if key in rows:
                req(np.array_equal(rows[key], M[k][:, j]), "entries depend on more than the multi-index")
            rows[key] = M[k][:, j]
    p = g.r.permutation(N)[:g.i(1, N)]
    for a, b in zip(M, D.sketch_sparse(SparseTensor(shape, inds[:, p], np.ones(len(p))))):
        req(np.array_equal(a[:, p], b), "depends on the other indices requested")
    a = tuple(g.i(0, r) for r in rank)
    b = tuple(g.i(x, r) for x, r in zip(a, rank))
    for m, s, x, y in zip(M, D.slice(a, b).sketch_sparse(X), a, b):
        req(np.array_equal(m[x:y], s), "slice differs from the part of the whole matrix")
