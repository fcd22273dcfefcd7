"""P24: the Python evaluation and data set helpers against their definitions."""
import hashlib, importlib.util, os, struct, sys
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pypbt
from pypbt import prop

SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "python", "src", "alayalite")


def load(name, *path):
    spec = importlib.util.spec_from_file_location(name, os.path.join(SRC, *path))
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


sys.dont_write_bytecode = True
U = load("alaya_utils_under_test", "utils.py")
D = load("alaya_datasets_under_test", "bench", "_datasets.py")


def rows_file(path, a):
    with open(path, "wb") as f:
        for r in a:
            f.write(struct.pack("<i", len(r)) + r.tobytes())


def bin_file(path, a):
    with open(path, "wb") as f:
        f.write(struct.pack("<II", *a.shape) + a.tobytes())


def matrix(c, dtype=np.float32, lo=1, rows=20, cols=20):
    n, d = c.size(lo, rows), c.size(1, cols)
    r = c.np()
    return r.standard_normal((n, d)).astype(dtype) if dtype == np.float32 else r.integers(-2**31, 2**31 - 1, (n, d)).astype(dtype)


@prop("several rows", 1500, 20000)
def P24_py_files(c):
    f, i = matrix(c), matrix(c, np.int32)
    p = c.dir() / "f"
    kind = c.raw(3)
    c.note("kind", kind, f.shape, i.shape)
    c.nontrivial(len(f) > 1)
    if kind == 0:
        rows_file(p, f)
        for g in (U.load_fvecs(str(p)), D._load_fvecs(p)):
            c.check(g.shape == f.shape and g.tobytes() == f.tobytes(), "an fvecs file loads as something else")
    elif kind == 1:
        rows_file(p, i)
        g = U.load_ivecs(str(p))
        c.check(g.shape == i.shape and g.tobytes() == i.tobytes(), "an ivecs file loads as something else")
        i = np.abs(i.astype(np.int64)).clip(0, 2**31 - 1).astype(np.int32)
        rows_file(p, i)
        g = D._load_ivecs(p)
        c.check(g.shape == i.shape and g.dtype == np.uint64 and (g == i.astype(np.uint64)).all(), "an ivecs file loads as other ids")
    elif kind == 2:
        bin_file(p, f)
        g = D._load_fbin(p)
        c.check(g.shape == f.shape and g.tobytes() == f.tobytes(), "an fbin file loads as something else")
    else:
        u = i.view(np.uint32)
        bin_file(p, u)
        g = D._load_ibin(p)
        c.check(g.shape == u.shape and g.dtype == np.uint64 and (g == u).all(), "an ibin file loads as other ids")


@prop("the cut leaves part of a row", 1200, 15000)
def P24_py_damaged_files(c):
    a = matrix(c, lo=1)
    p = c.dir() / "f"
    kind = c.raw(3)
    (rows_file if kind < 2 else bin_file)(p, a)
    load = [D._load_fvecs, D._load_ivecs, D._load_fbin, D._load_ibin][kind]
    data = p.read_bytes()
    how = c.raw(2)
    row = 4 + a.shape[1] * 4
    if how == 0:
        cut = c.raw(len(data) - 1)
        data = data[:cut]
        whole = kind < 2 and cut and cut // 4 * 4 % row == 0 and cut // 4  # np.fromfile ignores a partial last number
        c.note("kind", kind, a.shape, "cut to", cut)
        c.assume(not whole)
    elif how == 1 and kind < 2 and len(a) > 1:
        r = 1 + c.raw(len(a) - 2)
        off = r * row
        data = data[:off] + struct.pack("<i", a.shape[1] + 1) + data[off + 4:]
        c.note("kind", kind, a.shape, "dimension of row", r, "changed")
    elif how == 2 and kind >= 2:
        data = struct.pack("<II", a.shape[0] + 1 + c.raw(5), a.shape[1]) + data[8:]
        c.note("kind", kind, a.shape, "row count grown")
    else:
        c.assume(False)
    p.write_bytes(data)
    c.nontrivial(len(data) % row != 0)
    c.raises(load, p, what="a damaged file")


@prop("some but not all ids are right", 2000, 30000)
def P24_py_recall(c):
    n, k = c.size(1, 8), c.size(1, 12)
    uni = k + c.raw(12)
    r = c.np()
    gk = k if c.flip() else c.size(1, uni)
    res = np.stack([r.permutation(uni)[:k] for _ in range(n)])
    gt = np.stack([r.permutation(uni)[:gk] for _ in range(n)])
    want = sum(int(x in set(gt[i].tolist())) for i in range(n) for x in res[i].tolist()) / (n * k)
    got = U.calc_recall(res, gt)
    c.note(res.shape, gt.shape, "recall", want)
    c.check(abs(got - want) < 1e-9, "recall", got, "instead of", want)
    c.nontrivial(0 < want < 1)


def exact_order(c, vectors, query, got, k, score, what):
    """got must be k distinct row numbers in order of the (exactly computable) score."""
    s = np.array([score(v, query) for v in vectors])
    want = np.sort(s)[:k]
    c.check(len(got) == k and len(set(map(int, got))) == k, what, "returns", list(got), "for k =", k)
    c.check(all(0 <= int(g) < len(vectors) for g in got), what, "names a row that does not exist")
    have = s[np.asarray(got, dtype=np.int64)]
    c.check(np.allclose(have, want, rtol=1e-5, atol=1e-6), what, "returns rows at", have.tolist(), "instead of", want.tolist())


SCORES = {
    "L2": lambda v, q: float(((v.astype(np.float64) - q) ** 2).sum()),
    "IP": lambda v, q: -float((v.astype(np.float64) * q).sum()),
    "COS": lambda v, q: -float((v.astype(np.float64) * q).sum()) / max(float(np.linalg.norm(v.astype(np.float64)) * np.linalg.norm(q.astype(np.float64))), 1e-12),
}


@prop("several rows and ties or a cut", 1500, 20000)
def P24_py_ground_truth(c):
    n, d, nq = c.size(1, 40), c.size(1, 20), c.size(1, 4)
    width = c.pick([2, 5, 100])
    r = c.np()
    v = r.integers(-width, width + 1, (n, d)).astype(np.float32)
    q = r.integers(-width, width + 1, (nq, d)).astype(np.float32)
    metric = c.pick(["L2", "IP", "COS"])
    k = c.size(1, n + 3)
    labels = r.permutation(n).astype(np.uint64) + np.uint64(1000)
    c.note(n, d, nq, metric, "k", k)
    got = D.exact_ground_truth(v, labels, q, metric=metric, k=k)
    c.check(got.dtype == np.uint64 and got.shape == (nq, min(k, n)), "ground truth of shape", got.shape, got.dtype)
    back = {int(l): i for i, l in enumerate(labels)}
    for i in range(nq):
        c.check(all(int(x) in back for x in got[i]), "ground truth holds an unknown label")
        exact_order(c, v, q[i], [back[int(x)] for x in got[i]], min(k, n), SCORES[metric], f"exact_ground_truth({metric})")
    if k <= n:
        g = U.calc_gt(v, q, k)
        c.check(g.shape == (nq, k), "calc_gt of shape", g.shape)
        for i in range(nq):
            exact_order(c, v, q[i], g[i], k, SCORES["L2"], "calc_gt")
    c.raises(lambda: D.exact_ground_truth(v[:0], labels[:0], q, metric=metric, k=k), what="an empty data set")
    c.nontrivial(n > 2)


@prop("cosine metric", 2000, 30000)
def P24_py_normalize(c):
    a = matrix(c, lo=1)
    a *= np.float32(10.0 ** c.range(-3, 3))
    for z in range(len(a)):
        if c.chance(1, 6):
            a[z] = 0
    metric = c.pick(["cos", "cosine", "l2", "ip", "euclidean", None, ""])
    one = c.flip()
    x = a[0] if one else a
    keep = x.copy()
    f = c.pick([U.normalize_vectors_for_cosine_metric, U.normalize_vectors_for_metric])
    g = f(x, metric)
    c.note(x.shape, metric)
    c.check((x == keep).all(), "the caller's array was changed")
    c.check(g.shape == x.shape, "shape changed to", g.shape)
    if metric not in ("cos", "cosine"):
        c.check((g == x).all(), "vectors changed for metric", metric)
        return
    for u, w in zip(np.atleast_2d(keep).astype(np.float64), np.atleast_2d(g)):
        nn = np.linalg.norm(u)
        c.check(np.allclose(w, u / nn if nn else u, atol=1e-5), "vector", u.tolist(), "normalised to", w.tolist())
    c.nontrivial(len(a) > 1)


@prop("arrays longer than a chunk", 1000, 10000)
def P24_py_digests(c):
    r = c.np()
    a = r.integers(0, 256, c.size(0, 300)).astype(np.uint8)
    ch = c.size(1, 64)
    c.check(U.md5(a, ch) == hashlib.md5(a.tobytes()).hexdigest(), "md5 of", len(a), "bytes in chunks of", ch)
    c.nontrivial(len(a) > ch)
    b = r.standard_normal((3, 4)).astype(np.float32)
    base = D._sha16_arrays(a, b, b"x")
    c.check(base == hashlib.sha256(a.tobytes() + b.tobytes() + b"x").hexdigest()[:16], "array digest")
    c.check(D._sha16_arrays(b.T, a) == D._sha16_arrays(np.ascontiguousarray(b.T), a), "the digest depends on the memory layout")
    d = c.dir() / "t"
    (d / "s").mkdir(parents=True)
    names = ["a", "b", "s/c"]
    for nm in names:
        (d / nm).write_bytes(r.bytes(c.size(0, 50)))
    h = D._sha16_directory(d)
    c.check(h == D._sha16_directory(d), "directory digest is not stable")
    nm = c.pick(names)
    old = (d / nm).read_bytes()
    if c.flip():
        (d / nm).write_bytes(old + b"!")
    else:
        (d / nm).rename(d / (nm + "x"))
    c.check(h != D._sha16_directory(d), "directory digest misses a changed file", nm)


@prop("several vectors", 400, 5000)
def P24_py_datasets(c):
    r = c.np()
    n, dim, q = c.size(1, 40), c.size(1, 12), c.size(1, 4)
    kind = c.raw(2)
    c.note("kind", kind, n, dim, q)
    c.nontrivial(n > 1)
    if kind == 0:
        m = c.pick(["L2", "IP", "COS"])
        seed = c.raw(1000)
        s = D.load_synth(n, dim, q, seed, metric=m)
        t = D.load_synth(n, dim, q, seed, metric=m)
        c.check(s.n == n and s.dim == dim and s.queries.shape == (q, dim), "synthetic data set of", s.n, s.dim, s.queries.shape)
        c.check((s.vectors == t.vectors).all() and (s.queries == t.queries).all() and s.sha16 == t.sha16, "equal seeds give different data")
        c.check(s.sha16 != D.load_synth(n, dim, q, seed, metric="IP" if m != "IP" else "L2").sha16, "the digest ignores the metric")
        c.check(s.labels.tolist() == list(range(n)), "labels")
        k = min(100, n)
        for i in range(q):
            exact_order(c, s.vectors, s.queries[i], s.ground_truth[i], k, SCORES[m], "the synthetic ground truth")
        for bad in ((0, dim, q), (n, 0, q), (n, dim, 0), (-1, dim, q)):
            c.raises(lambda: D.load_synth(*bad, seed), kinds=(ValueError,), what=f"load_synth{bad}")
        return
    v, qs = r.standard_normal((n, dim)).astype(np.float32), r.standard_normal((q, dim)).astype(np.float32)
    gt = r.integers(0, n, (q, 3)).astype(np.int32)
    has_gt = c.flip()
    root = c.dir()
    if kind == 1:
        sift = c.flip()
        w = rows_file if sift else bin_file
        names = ("sift_base.fvecs", "sift_query.fvecs", "sift_groundtruth.ivecs") if sift else ("gist_base.fbin", "gist_query.fbin", "gist_gt.ibin")
        for nm, a in zip(names, (v, qs, gt)):
            if nm != names[2] or has_gt:
                w(root / nm, a)
        load = D.load_sift1m if sift else D.load_gist1m
        s = load(root)
        c.check(s.vectors.tobytes() == v.tobytes() and s.queries.tobytes() == qs.tobytes() and s.n == n and s.dim == dim, "other data was loaded")
        c.check((s.ground_truth is None) == (not has_gt), "ground truth")
        if has_gt:
            c.check((s.ground_truth == gt.astype(np.uint64)).all(), "other ground truth was loaded")
        w(root / names[1], qs + 1)
        c.check(load(root).sha16 != s.sha16, "the digest ignores the queries")
        (root / c.pick(list(names[:2]))).unlink()
        c.raises(lambda: load(root), kinds=(D.DatasetMissing,), what="a missing file")
    else:
        bin_file(root / "v", v)
        bin_file(root / "q", qs)
        bin_file(root / "g", gt)
        (root / "src").mkdir()
        (root / "src" / "idx").write_bytes(b"1")
        use_v, use_q = c.flip(), c.flip()
        args = dict(n=n, dim=dim, query_count=q, seed=3, vectors_path=root / "v" if use_v else None, queries_path=root / "q" if use_q else None,
                    ground_truth_path=root / "g" if has_gt else None, laser_src_dir=root / "src")
        s = D.load_laser_files(**args)
        c.check(s.n == n and s.dim == dim, "LASER data set of", s.n, s.dim)
        c.check(s.labels.tolist() == [1_000_000 + i for i in range(n)], "labels")
        if use_q:
            c.check(s.queries.tobytes() == qs.tobytes(), "other queries")
            c.raises(lambda: D.load_laser_files(**{**args, "vectors_path": None, "dim": dim + 1}), kinds=(ValueError,), what="queries of another dimension")
        if has_gt:
            c.check((s.ground_truth == gt).all(), "other ground truth")
        elif use_v:
            back = {int(l): i for i, l in enumerate(s.labels)}
            for i in range(q):
                exact_order(c, v, s.queries[i], [back[int(x)] for x in s.ground_truth[i]], min(100, n), SCORES["L2"], "the LASER ground truth")
        else:
            c.check(s.ground_truth is None, "ground truth from nowhere")
        (root / "src" / "idx").write_bytes(b"2")
        c.check(D.load_laser_files(**args).sha16 != s.sha16, "the digest ignores the index files")


if __name__ == "__main__":
    pypbt.main()
