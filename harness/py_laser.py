"""P23: the LASER build pipeline in Python (vector files, PCA, medoids, validators, resumable fit). scikit-learn, faiss and
the native builders are replaced by small deterministic stand-ins that record what they were given."""
import hashlib, inspect, os, shutil, struct, sys, types
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pypbt
from pypbt import prop

SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "python", "src", "alayalite")
sys.dont_write_bytecode = True


class FakePCA:
    """IncrementalPCA by an exact eigendecomposition of everything seen so far."""

    def __init__(self, n_components=None, batch_size=None):
        self.n_components = n_components
        self.rows = []

    def partial_fit(self, x):
        self.rows.append(np.asarray(x, dtype=np.float64))
        if len(self.rows) == 1 and len(self.rows[0]) < self.n_components:
            raise ValueError("n_components must be less or equal to the batch number of samples")
        return self._fit()

    def _fit(self):
        a = np.vstack(self.rows)
        self.mean_ = a.mean(axis=0)
        _, _, vt = np.linalg.svd(a - self.mean_, full_matrices=True)
        self.components_ = vt[: self.n_components]
        self.n_components_ = self.n_components
        return self

    def transform(self, x):
        return (np.asarray(x, dtype=np.float64) - self.mean_) @ self.components_.T


class FakeIVF:
    """Picks rows at a fixed stride as centroids, slightly moved, and searches exactly."""

    def __init__(self, d, k):
        self.d, self.nlist, self.cp = d, k, types.SimpleNamespace(seed=0)
        self.quantizer = self
        self.nprobe = 1

    def train(self, x):
        assert x.ndim == 2 and x.shape[1] == self.d and x.dtype == np.float32
        k = self.nlist
        if len(x) < k:
            raise RuntimeError("not enough training points")
        pick = (np.arange(k) * (len(x) // k) + self.cp.seed % max(1, len(x) // k)) % len(x)
        self.c = np.asarray(x)[pick] + np.float32(0.01)

    def add(self, x):
        self.x = np.asarray(x)

    def reconstruct_n(self, a, n):
        return self.c[a:a + n]

    def search(self, q, k):
        d = ((q[:, None, :].astype(np.float64) - self.x[None]) ** 2).sum(axis=2)
        o = np.argsort(d, axis=1, kind="stable")[:, :k]
        return np.take_along_axis(d, o, axis=1), o


def install():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    mod("tqdm", tqdm=lambda it=None, **kw: it)
    mod("sklearn")
    mod("sklearn.decomposition", IncrementalPCA=FakePCA)
    mod("faiss", index_factory=lambda d, s: FakeIVF(d, int(s.split(",")[0][3:])), omp_set_num_threads=lambda n: None)
    pkg = mod("alayalite")
    pkg.__path__ = [SRC]  # the package without its native extension
    import importlib
    return importlib.import_module("alayalite.laser")


L = install()
import alayalite.laser._idempotence as IDEM
import alayalite.laser._io as IO
import alayalite.laser._medoid as MED
import alayalite.laser._pca as PCA

_transform = PCA.pca_transform_and_save


def small_chunks(*a, **k):
    """pca_transform_and_save with chunks small enough for generated data to span several."""
    if "chunk_size" in inspect.signature(_transform).parameters and len(a) < 4:
        k.setdefault("chunk_size", 16)
    return _transform(*a, **k)


PCA.pca_transform_and_save = small_chunks


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else open(p, "rb").read() if os.path.exists(str(p)) else b"absent")
        h.update(b"|")
    return h.digest()


class FakeRaw:
    """Stands for the native index: the file it builds is a digest of the inputs it was built from."""

    def __init__(self, **kw):
        self.kw = kw

    def build_index(self, vamana_file, data_file, EF, num_thread):
        kw = self.kw
        path = f"{data_file}_R{kw['degree_bound']}_MD{kw['main_dimension']}.index"
        body = struct.pack("<QQQ", kw["num_elements"], kw["main_dimension"], 0)
        with open(path, "wb") as f:
            f.write(body)
            f.flush()
            tick()
            f.write(digest(str(sorted(kw.items())).encode(), vamana_file, data_file + "_pca_base.fbin", data_file + "_pca.bin", str(EF).encode()))
            f.flush()
            tick()

    def load(self, prefix, budget):
        pass

    def set_params(self, **kw):
        pass


def fake_vamana(data_path, output_path, R, L, alpha, seed, num_threads, dram_budget_gb):
    body = digest(data_path, repr((R, L, alpha, seed)).encode())
    with open(output_path, "wb") as f:
        f.write(struct.pack("<QIIQ", 24 + len(body), R, 0, 0))
        f.flush()
        tick()
        f.write(body)
        f.flush()
        tick()


def tick():  # a line of its own for the kill points
    return None


L._raw_laser_mod = types.SimpleNamespace(Index=FakeRaw, selected_simd=lambda: "avx2")
sys.modules["alayalite.vamana"] = types.ModuleType("alayalite.vamana")
sys.modules["alayalite.vamana"].build_index = fake_vamana
sys.modules["alayalite"].vamana = sys.modules["alayalite.vamana"]


def vectors(c, lo=1, rows=60, cols=24):
    n, d = c.size(lo, rows), c.size(1, cols)
    r = c.np()
    return (r.standard_normal((n, d)) * 10.0 ** c.range(-2, 2)).astype(np.float32)


@prop("several rows", 1500, 15000)
def P23_vector_files(c):
    a = vectors(c)
    p = str(c.dir() / "f")
    IO.write_fbin(p, a if c.flip() else np.asfortranarray(a))
    n, d = a.shape
    c.check(os.path.getsize(p) == 8 + n * d * 4, "file of", os.path.getsize(p), "bytes for", a.shape)
    s = c.raw(n - 1)
    k = None if c.flip() else c.size(1, n + 5)
    mm = c.flip()
    c.note(a.shape, "from", s, "count", k, "mmap", mm)
    got = IO.read_fbin(p, start_idx=s, chunk_size=k, use_mmap=mm)
    want = a[s:] if k is None else a[s:s + k]
    c.check(got.shape == want.shape and np.asarray(got).tobytes() == want.tobytes(), "read_fbin returns", got.shape, "instead of rows", s, "..", s + len(want))
    i = c.np().integers(-2**31, 2**31, (n, d)).astype(np.int64).astype(np.int32)
    IO.write_ibin(p, i)
    k = None if c.flip() else c.size(1, n - s)
    got = IO.read_ibin(p, start_idx=s, chunk_size=k)
    want = i[s:] if k is None else i[s:s + k]
    c.check(got.shape == want.shape and got.tobytes() == want.tobytes(), "read_ibin returns other rows")
    c.check(L._read_fbin_header(p) == (n, d), "header reads as", L._read_fbin_header(p))
    IO.write_fbin(p, a)
    data = open(p, "rb").read()
    cut = c.raw(len(data) - 1)
    open(p, "wb").write(data[:cut])
    c.raises(lambda: L._read_fbin_header(p), kinds=(ValueError,), what=f"a file cut to {cut} of {len(data)} bytes")
    c.nontrivial(n > 1)


@prop("offsets beyond 2 GiB", 4, 8, workers=1)
def P23_large_ibin(c):
    dim, rows = 100, 6_000_000 + c.raw(1000)
    p = str(c.dir() / "big")  # sparse: takes no room
    row = c.np().integers(0, 1000, dim).astype(np.int32)
    with open(p, "wb") as f:
        f.write(struct.pack("<ii", rows, dim))
        f.seek(8 + (rows - 1) * dim * 4)
        f.write(row.tobytes())
    got = IO.read_ibin(p, start_idx=rows - 1, chunk_size=1)
    c.check((got[0] == row).all(), "the last row of a large file reads as another")
    g = IO.read_fbin(p, start_idx=rows - 1, chunk_size=1)
    c.check(np.asarray(g).tobytes() == row.tobytes(), "the last row of a large vector file reads as another")
    c.nontrivial()


@prop("more rows than dimensions", 400, 5000)
def P23_pca(c):
    d = c.size(1, 16)
    n = c.size(1, 80)
    r = c.np()
    x = (r.standard_normal((n, d)) * r.uniform(0.1, 5, d) + r.standard_normal(d)).astype(np.float32)
    c.note(n, d)
    base = str(c.dir() / "raw")
    IO.write_fbin(base, x)
    seed = c.raw(50)
    ratio = c.pick([0.25, 0.5, 1.0, 0.01])
    allv, sample = PCA.sample_vectors_from_fbin(base, sample_ratio=ratio, seed=seed)
    _, again = PCA.sample_vectors_from_fbin(base, sample_ratio=ratio, seed=seed)
    want = min(n, max(int(ratio * n), d))
    c.check(np.asarray(allv).tobytes() == x.tobytes(), "the vectors differ from the file")
    c.check(len(sample) == want, "sampled", len(sample), "of", n, "rows, wanted", want)
    c.check(np.asarray(sample).tobytes() == np.asarray(again).tobytes(), "equal seeds sample differently")
    pos = {}
    for i, row in enumerate(x):
        pos.setdefault(row.tobytes(), []).append(i)
    used = [pos.get(np.asarray(row).tobytes()) for row in sample]
    c.check(all(used), "a sampled row is not in the file")
    if len(pos) == n:
        c.check(len({u[0] for u in used}) == want, "a row was sampled twice")
    if n < d:
        c.raises(lambda: PCA.fit_incremental_pca(sample, n_components=d), kinds=(ValueError,), what="fewer rows than components")
        return
    c.nontrivial(n > d)
    bs = c.pick([200000, d, d + 3])
    pca = PCA.fit_incremental_pca(sample, n_components=d, batch_size=bs)
    comp = pca.components_
    c.check(np.allclose(comp @ comp.T, np.eye(d), atol=1e-8), "the components are not orthonormal")
    sums = comp.sum(axis=1)
    big = np.argmax(np.abs(comp), axis=1)
    for i in range(d):
        ok = sums[i] >= 0 if abs(sums[i]) >= 1e-9 else abs(sums[i]) < 1e-9
        c.check(ok, "component", i, "has a negative sum", sums[i])
    flipped = types.SimpleNamespace(components_=comp * np.where(r.integers(0, 2, d) == 0, -1.0, 1.0)[:, None])
    if (np.abs(sums) > 1e-9).all():
        c.check(np.allclose(PCA._canonicalize_pca_sign(flipped).components_, comp), "signs are not canonical")
    out = str(c.dir() / "base")
    chunk = c.size(1, 30)
    _transform(allv, pca, out, chunk_size=chunk)
    full = open(out, "rb").read()
    t = np.asarray(IO.read_fbin(out))
    c.check(t.shape == (n, d), "transformed file of shape", t.shape)
    c.check(np.allclose(t, pca.transform(x), atol=1e-3), "the file holds other vectors than the transform")
    y = x.astype(np.float64)
    dx = ((y[:, None] - y[None]) ** 2).sum(axis=2)
    dt = ((t[:, None].astype(np.float64) - t[None]) ** 2).sum(axis=2)
    c.check(np.allclose(dx, dt, rtol=1e-3, atol=1e-3), "the rotation changes distances by", np.abs(dx - dt).max())
    var = t.astype(np.float64).var(axis=0)
    if len(sample) == n and n > 1:
        c.check((np.diff(var) <= 1e-3 * max(1.0, var.max())).all(), "variances are not in falling order", var.tolist())
    # cut anywhere, then resumed: the same file
    cut = c.raw(len(full))
    open(out, "wb").write(full[:cut])
    c.note("chunk", chunk, "cut", cut, "of", len(full))
    _transform(allv, pca, out, chunk_size=chunk)
    c.check(open(out, "rb").read() == full, "resuming from", cut, "of", len(full), "bytes gives another file")
    # a leftover of another shape is not a partial copy
    if c.flip():
        other = np.zeros((n + c.size(1, 40), d), dtype=np.float32)
        IO.write_fbin(out, other)
        _transform(allv, pca, out, chunk_size=chunk)
        c.check(open(out, "rb").read() == full, "a leftover of another shape was taken for this output")
    # parameter file for the native side
    pp = str(c.dir() / "p")
    PCA.save_pca_params(pca, pp)
    raw = open(pp, "rb").read()
    c.check(struct.unpack("<Q", raw[:8])[0] == d, "dimension in the parameter file")
    f = np.frombuffer(raw[8:], dtype=np.float32)
    c.check(len(f) == d + d * d and np.allclose(f[:d], pca.mean_, atol=1e-5) and np.allclose(f[d:].reshape(d, d), comp, atol=1e-6), "the parameter file holds other values")
    c.check(IDEM.validate_pca_params(pp, d), "a written parameter file is refused")
    c.check(IDEM.validate_pca_base(out, n, d), "a written base file is refused")


@prop("several clusters", 500, 6000)
def P23_medoids(c):
    n, d = c.size(20, 200), c.size(1, 8)
    r = c.np()
    x = r.standard_normal((n, d)).astype(np.float32)
    base = str(c.dir() / "b")
    IO.write_fbin(base, x)
    ratio = c.pick([0.1, 0.5, 1.0])
    k = c.size(1, max(1, min(12, int(ratio * n))))
    seed = None if c.chance(1, 4) else c.raw(100)
    c.note(n, d, "clusters", k, "ratio", ratio, "seed", seed)
    idx, vec = MED.generate_medoids(base, k, sample_ratio=ratio, seed=seed)
    idx = np.asarray(idx)
    c.check(idx.shape == (k, 1) and np.asarray(vec).shape == (k, d), "medoids of shape", idx.shape, np.asarray(vec).shape)
    for i in range(k):
        c.check(0 <= idx[i, 0] < n, "medoid", idx[i, 0], "of", n)
        c.check((np.asarray(vec)[i] == x[idx[i, 0]]).all(), "medoid", i, "is not the vector of row", idx[i, 0])
    if seed is not None:
        i2, v2 = MED.generate_medoids(base, k, sample_ratio=ratio, seed=seed)
        c.check((np.asarray(i2) == idx).all(), "equal seeds choose other medoids")
    if ratio == 1.0:
        f = FakeIVF(d, k)
        f.cp.seed = seed or 0
        f.train(x)
        for i in range(k):
            dist = ((x.astype(np.float64) - f.c[i]) ** 2).sum(axis=1)
            c.check(dist[idx[i, 0]] == dist.min(), "medoid", i, "is not the row nearest its centre")
    kk = c.size(1, max(1, min(10, n // 10)))
    MED.generate_and_save_medoids(base, base + "_i", base + "_v", kk, seed=1)
    si, sv = IO.read_ibin(base + "_i"), np.asarray(IO.read_fbin(base + "_v"))
    c.check(si.shape == (kk, 1) and (sv == x[si[:, 0]]).all(), "the saved medoids are not rows of the base file")
    c.nontrivial(k > 1)


@prop("a file that differs from what is asked for", 2500, 30000)
def P23_validators(c):
    n, d, R = c.size(1, 20), c.size(1, 12), c.size(1, 40)
    p = str(c.dir() / "x")
    r = c.np()
    kind = c.raw(4)
    rb = lambda k: r.bytes(k)
    if kind == 0:
        body = rb(c.size(0, 60))
        data = struct.pack("<QIIQ", 24 + len(body), R, int(r.integers(0, 9)), 0) + body
        path, ask = p, lambda: IDEM.validate_vamana_index(p, R)
        wrong = lambda: IDEM.validate_vamana_index(p, R + 1)
    elif kind == 1:
        data = struct.pack("<ii", n, d) + rb(n * d * 4)
        path, ask = p, lambda: IDEM.validate_pca_base(p, n, d)
        wrong = lambda: IDEM.validate_pca_base(p, *c.pick([(n + 1, d), (n, d + 1), (d * 2 + 1, n)]))
    elif kind == 2:
        data = struct.pack("<Q", d) + rb((d + d * d) * 4)
        path, ask = p, lambda: IDEM.validate_pca_params(p, d)
        wrong = lambda: IDEM.validate_pca_params(p, d + 1)
    elif kind == 3:
        data = struct.pack("<QQQ", n, d, 0) + rb(c.size(0, 60))
        path, ask = f"{p}_R{R}_MD{d}.index", lambda: IDEM.validate_laser_index(p, R, d, n)
        wrong = lambda: c.pick([IDEM.validate_laser_index(p, R, d, n + 1), IDEM.validate_laser_index(p, R + 1, d, n), IDEM.validate_laser_index(p, R, d + 1, n)])
    else:
        seed = c.raw(2**40) - 2**20
        c.note("seed", seed)
        c.check(not IDEM.validate_seed_sidecar(p, seed), "a missing sidecar is accepted")
        IDEM.write_seed_sidecar(p, seed)
        c.check(IDEM.validate_seed_sidecar(p, seed), "a written sidecar is refused")
        c.check(not IDEM.validate_seed_sidecar(p, seed + c.pick([-1, 1, 2**20])), "another seed is accepted")
        c.check(os.listdir(c.dir()) == [os.path.basename(IDEM.seed_sidecar_path(p))], "files left behind:", os.listdir(c.dir()))
        IDEM.write_seed_sidecar(p, seed + 1)
        c.check(IDEM.validate_seed_sidecar(p, seed + 1) and not IDEM.validate_seed_sidecar(p, seed), "a rewritten sidecar keeps the old seed")
        open(IDEM.seed_sidecar_path(p), "w").write(c.pick(["", "x", "1 2", "\n"]))
        c.check(not any(IDEM.validate_seed_sidecar(p, s) for s in (seed, 0, 1)), "a damaged sidecar is accepted")
        IDEM.invalidate_seed_sidecar(p)
        IDEM.invalidate_seed_sidecar(p)
        c.check(not os.path.exists(IDEM.seed_sidecar_path(p)), "the sidecar was not removed")
        c.nontrivial()
        return
    c.note("kind", kind, n, d, R, len(data))
    c.check(ask() is False, "a missing file is accepted")
    open(path, "wb").write(data)
    c.check(ask() is True, "a complete file is refused")
    c.check(wrong() is False, "a file of other parameters is accepted")
    cut = c.raw(min(len(data) - 1, 1000)) if kind != 3 else c.raw(7)
    open(path, "wb").write(data[:cut])
    c.check(ask() is False, "a file cut to", cut, "of", len(data), "bytes is accepted")
    if kind != 3:
        open(path, "wb").write(data + b"!")
        c.check(ask() is False, "a file with extra bytes is accepted")
    if kind == 0:
        open(path, "wb").write(struct.pack("<QIIQ", len(data), R, 0, 1) + data[24:])
        c.check(ask() is False, "a graph with frozen points is accepted")
    os.unlink(path)
    os.mkdir(path)
    c.check(ask() is False, "a directory is accepted")
    pre = str(c.dir() / "m")
    for name, ok in ((pre + "_medoids", c.flip()), (pre + "_medoids_indices", c.flip())):
        if c.flip():
            open(name, "wb").write(b"x" if ok else b"")
    want = all(os.path.exists(pre + s) and os.path.getsize(pre + s) for s in ("_medoids", "_medoids_indices"))
    c.check(IDEM.validate_medoids(pre) == want, "medoid files present:", want)
    c.nontrivial()


def artifacts(prefix, st):
    """The files a finished fit with these settings consists of, and their contents."""
    names = ["_pca_base.fbin", "_pca.bin", "_vamana_graph.index", f"_R{st['R']}_MD{st['md'] or st['dim']}.index", "_seed.txt"]
    if not st["nomed"]:
        names += ["_medoids", "_medoids_indices"]
    return {s: (open(prefix + s, "rb").read() if os.path.exists(prefix + s) else None) for s in names}


def fit(x, out, st):
    return L.Index.fit(x, out, name="l", seed=st["seed"], num_threads=1, skip_existing=st["skip"],
                       build_params=L.BuildParams(main_dim=st["md"], R=st["R"], ep_num=st["ep"], disable_medoid=st["nomed"]))


def fit_killed(x, out, st, at):
    """Runs fit in a child that is killed at its at-th step; returns the files it was writing, or None if it finished."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        left = [at]

        def die():
            names = []
            for f in os.listdir("/proc/self/fd"):
                try:
                    t = os.readlink(f"/proc/self/fd/{f}")
                    flags = int(open(f"/proc/self/fdinfo/{f}").read().split("flags:")[1].split()[0], 8)
                except (OSError, IndexError):
                    continue
                if t.startswith(str(out)) and flags & 3:
                    names.append(t)
            os.write(wr, "\n".join(names).encode())
            os._exit(9)

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            if "/laser/" not in f and frame.f_code.co_name != "tick":
                return None
            left[0] -= 1
            if left[0] <= 0:
                die()
            return tracer
        sys.settrace(tracer)
        try:
            fit(x, out, st)
            os._exit(0)
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(1)
    os.close(wr)
    data = b""
    while True:
        b = os.read(rd, 4096)
        if not b:
            break
        data += b
    os.close(rd)
    _, s = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(s)
    if code == 0:
        return None
    if code != 9:
        raise pypbt.Failure(f"fit ended with status {code}")
    return [p for p in data.decode().split("\n") if p]


@prop("an interrupted or differing earlier build", 260, 3000)
def P23_resumable_fit(c):
    dim = 128
    n = c.size(dim, 190)
    ep = 1 + c.raw(3)
    r = c.np()
    x = r.standard_normal((n, dim)).astype(np.float32)
    out = c.dir() / "work"
    out.mkdir()
    src = x
    if c.chance(1, 3):
        src = str(c.dir() / "in.fbin")
        IO.write_fbin(src, x)

    def settings():
        return dict(seed=1 + c.raw(1), md=c.pick([None, 64, 128]), R=c.pick([64, 32]), nomed=c.chance(1, 3), ep=ep, skip=not c.chance(1, 5), dim=dim)
    runs = c.size(1, 4)
    for i in range(runs):
        st = settings()
        last = i == runs - 1
        if not last and c.chance(2, 3):
            at = 1 + c.raw(c.pick([40, 160, 260]))
            torn = fit_killed(src, out, st, at)
            c.note("killed at", at, {k: st[k] for k in ("seed", "md", "R", "nomed", "skip")}, "finished" if torn is None else "")
            if torn:
                c.label("killed while writing")
                for t in torn:
                    if c.flip():
                        os.truncate(t, c.raw(os.path.getsize(t)))
            if torn is not None:
                c.nontrivial()
        else:
            fit(src, out, st)
            c.note("fit", {k: st[k] for k in ("seed", "md", "R", "nomed", "skip")})
            c.nontrivial(i > 0)
    fresh = c.dir() / "fresh"
    fresh.mkdir()
    fit(src, fresh, st)
    got, want = artifacts(str(out / "l"), st), artifacts(str(fresh / "l"), st)
    for k in want:
        c.check(got[k] == want[k], "after earlier builds the file", k, "differs from that of a fresh build",
                "(missing)" if got[k] is None else "(should not exist)" if want[k] is None else "")
    # again with the same inputs: nothing is rebuilt
    st2 = dict(st, skip=True)
    stamp = {p.name: p.stat().st_mtime_ns for p in out.iterdir() if not p.name.endswith("_seed.txt")}
    fit(src, out, st2)
    now = {p.name: p.stat().st_mtime_ns for p in out.iterdir() if not p.name.endswith("_seed.txt")}
    c.check(stamp == now, "a finished build was rebuilt:", sorted(k for k in now if now[k] != stamp.get(k)))


@prop("settings that must be refused", 600, 6000)
def P23_fit_arguments(c):
    out = c.dir() / "o"
    x = np.zeros((140, 128), dtype=np.float32)
    x[:] = c.np().standard_normal(x.shape)
    md = c.pick([0, -64, 1, 32, 63, 65, 96, 127, 129, 256, 64, 128, None])
    c.note("main_dim", md)
    ok = md in (64, 128, None)
    f = lambda: L.Index.fit(x, out, name="l", build_params=L.BuildParams(main_dim=md, R=64, disable_medoid=True), num_threads=1)
    if not ok:
        c.raises(f, kinds=(ValueError,), what=f"main_dim={md}")
        c.check(not any(p.suffix in (".fbin", ".bin", ".index") for p in out.iterdir()), "a refused call left files")
    bad = c.raw(5)
    args = [(x.astype(np.float64), TypeError), (x[0], ValueError), (x[:, :64], ValueError), (str(out / "none.fbin"), FileNotFoundError), (x, ValueError), (x[:, :127], ValueError)][bad]
    bp = L.BuildParams(metric="ip" if bad == 4 else "l2", R=64, disable_medoid=True)
    c.raises(lambda: L.Index.fit(args[0], out, name="l", build_params=bp, num_threads=1), kinds=(args[1],), what=f"bad input {bad}")
    name, R, m = c.pick(["a", "x_R1", "b_MD2_R3_MD4"]), c.raw(500), c.raw(5000)
    c.check(L._parse_index_filename(f"/d/{name}_R{R}_MD{m}.index") == (R, m), "file name of R", R, "MD", m)
    c.nontrivial()


@prop("an index found by its prefix", 300, 3000)
def P23_from_prefix(c):
    x = np.asarray(c.np().standard_normal((c.size(130, 150), 128)), dtype=np.float32)
    out = c.dir() / "o"
    md, R = c.pick([None, 64, 128]), c.pick([32, 64])
    a = L.Index.fit(x, out, name="l", build_params=L.BuildParams(main_dim=md, R=R, disable_medoid=True), num_threads=1, auto_load=c.flip())
    b = L.Index.from_prefix(out / "l")
    pa, pb = a._params, b._params
    c.check((pa.n, pa.raw_dim, pa.main_dim, pa.R) == (pb.n, pb.raw_dim, pb.main_dim, pb.R), "reopened as", pb, "instead of", pa)
    c.raises(lambda: L.Index.from_prefix(out / "none"), kinds=(FileNotFoundError,), what="a prefix without index")
    q = np.zeros(pb.raw_dim + 1, dtype=np.float32)
    c.raises(lambda: b.search(q, 1), kinds=(ValueError,), what="a query of another dimension")
    c.raises(lambda: b.batch_search(q[:-1], 1), kinds=(ValueError,), what="a one-dimensional batch")
    idx = str(out / f"l_R{R}_MD{pa.main_dim}.index")
    data = open(idx, "rb").read()
    kind = c.raw(2)
    if kind == 0:
        open(idx, "wb").write(data[:c.raw(23)])
    elif kind == 1:
        open(idx, "wb").write(data[:8] + struct.pack("<Q", pa.main_dim * 2) + data[16:])
    else:
        open(str(out / f"l_R{R + 1}_MD{pa.main_dim}.index"), "wb").write(data)
    c.raises(lambda: L.Index.from_prefix(out / "l"), kinds=(ValueError,), what=f"damage {kind}")
    c.note("md", md, "R", R, "damage", kind)
    c.nontrivial()


if __name__ == "__main__":
    pypbt.main()
