"""P22: histories of calls on the real Python package, compiled from the checked tree, against a dictionary model."""
import gc, math, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pypbt
from pypbt import prop
sys.path.insert(0, os.environ["VERIF_STAGED"])
import numpy as np
from alayalite import Client, Collection  # noqa: E402

BIG = 1e38
FIELDS = ["n", "f", "s", "b", "mixed", "k y", "\u00e9"]
WORDS = ["", "a", "b", "ab", "Z", "\u00e9t\u00e9", "10", "a:b", "x" * 40]
INTS = [0, 1, 2, 3, -1, -7, 10, 2**31, 2**53 + 1, -2**63, 2**63 - 1]
FLOATS = [0.0, 1.0, -1.0, 0.5, 2.5, -3.25, 1e300, -1e-300, float("inf"), float("-inf")]


def value(c, kind=None):
    kind = c.raw(3) if kind is None else kind
    if kind == 0:
        return c.pick(INTS)
    if kind == 1:
        return c.pick(FLOATS)
    if kind == 2:
        return c.pick(WORDS)
    return c.flip()


def field_value(c, f):
    return value(c, {"n": 0, "f": 1, "s": 2, "b": 3}.get(f))


def metadata(c):
    return {f: field_value(c, f) for f in FIELDS if c.chance(1, 2)}


def text(c):
    return c.pick(["", "doc", "\u6587\u6863", "a\0b", "line\nline", "d" * 300]) + str(c.raw(99))


# ---- filters: the documented meaning ----
def same_type(a, b):
    return type(a) is type(b)


def matches(flt, meta):
    if not flt:
        return True
    for key, v in flt.items():
        if key == "$and":
            ok = all(matches(x, meta) for x in v)
        elif key == "$or":
            ok = not v or any(matches(x, meta) for x in v)
        elif isinstance(v, dict):
            ok = all(cond(meta, key, op, x) for op, x in v.items())
        else:
            ok = cond(meta, key, "$eq", v)
        if not ok:
            return False
    return True


def cond(meta, f, op, x):
    if f not in meta:
        return False
    a = meta[f]
    if op == "$in":
        return any(same_type(a, y) and a == y for y in x)
    if not same_type(a, x):
        return False
    if isinstance(a, str):
        a, x = a.encode(), x.encode()
    return {"$eq": a == x, "$gt": a > x, "$ge": a >= x, "$lt": a < x, "$le": a <= x}[op]


def gen_filter(c, depth=2):
    out = {}
    for _ in range(c.weighted([(1, 0), (5, 1), (3, 2)])):
        k = c.weighted([(6, "f"), (1 if depth else 0, "$and"), (2 if depth else 0, "$or")])
        if k == "f":
            f = c.pick(FIELDS)
            if c.flip():
                out[f] = field_value(c, f)
            else:
                ops = {}
                for _ in range(c.range(1, 2)):
                    op = c.pick(["$eq", "$gt", "$ge", "$lt", "$le", "$in"])
                    ops[op] = [field_value(c, f) for _ in range(c.raw(3))] if op == "$in" else field_value(c, f)
                out[f] = ops
        else:
            out[k] = [gen_filter(c, depth - 1) for _ in range(c.range(1, 3))]
    return out


# ---- vectors and distances ----
class Vectors:
    def __init__(self, c, dim, dtype, metric):
        self.dim, self.dtype, self.metric = dim, np.dtype(dtype), metric.lower()
        self.r = c.np()
        self.grid = c.flip()

    def draw(self):
        if self.dtype == np.int8:
            return self.r.integers(-20, 20, self.dim).astype(np.int8)
        if self.dtype == np.uint8:
            return self.r.integers(0, 40, self.dim).astype(np.uint8)
        if self.grid:
            v = self.r.integers(-3, 4, self.dim).astype(np.float32)
            if not v.any():
                v[0] = 1
            return v
        return self.r.standard_normal(self.dim).astype(np.float32)

    def stored(self, v):
        v = np.asarray(v, dtype=self.dtype)
        if self.metric in ("cos", "cosine"):
            n = np.linalg.norm(v.astype(np.float64))
            return (v / n).astype(self.dtype) if n else v
        return v

    def distance(self, q, v):
        q = np.asarray(q, dtype=np.float64)
        v = np.asarray(v, dtype=np.float64)
        if self.metric in ("cos", "cosine"):
            n = np.linalg.norm(q)
            return -float(q @ v) / (n or 1)
        if self.metric == "ip":
            return -float(q @ v)
        return float(((q - v) ** 2).sum())


def close(a, b, scale=1.0):
    return abs(a - b) <= 1e-3 * max(1.0, abs(a), abs(b), scale)


class Model:
    def __init__(self, vecs):
        self.items, self.vecs = {}, vecs
        self.slots = 0  # places used up so far

    def check_item(self, c, i, doc, meta, where):
        c.check(i in self.items, where, "returned", repr(i), "which is not in the collection")
        d, m, _ = self.items[i]
        c.check(doc == d, where, "returned the text", repr(doc), "for", repr(i), "instead of", repr(d))
        c.check(meta == m and all(type(meta[k]) is type(m[k]) for k in m), where, "returned metadata", meta, "for", repr(i), "instead of", m)


def ids_pool(c):
    base = ["a", "b", "id1", "id2", "\u00fc", "with space", "10", "x/y", "-1", "k" * 60]
    return base + [f"p{i}" for i in range(c.range(0, 40))]


def make(c, url, client, name):
    quant = c.weighted([(6, "none"), (2, "sq8"), (2, "sq4"), (2, "rabitq")])
    dtype = np.float32 if quant != "none" else c.weighted([(6, np.float32), (1, np.int8), (1, np.uint8)])
    metric = c.pick(["l2", "ip", "cosine", "cos", "euclidean", "L2", "COSINE", "IP"] if dtype == np.float32 else ["l2", "ip"])
    dim = c.pick([64, 65, 96]) if quant == "rabitq" else c.pick([1, 2, 3, 8, 16, 17, 33])
    kw = dict(metric=metric, quantization_type=quant, index_type=c.pick(["hnsw", "nsg", "fusion"]), max_nbrs=c.pick([32, 8, 4]),
              capacity=c.pick([60, 200, 12]), id_type=np.uint32 if quant == "rabitq" else c.pick([np.uint32, np.uint64]))
    if c.flip():
        kw["indexed_fields"] = [f for f in FIELDS if c.flip()]
    if c.flip():
        kw["build_threads"] = c.range(1, 3)
    c.note(kw, np.dtype(dtype).name, "dim", dim)
    col = client.create_collection(name, **kw)
    return col, kw, Vectors(c, dim, dtype, metric)


def adopt(c, col, model, touched, where):
    """After a refused batch the calls before the refused item may have happened: asks which."""
    for i in dict(touched):
        news = [n for j, n in touched if j == i]
        got = col.get_by_id([i])
        if not got["id"]:
            c.check(i not in model.items, where, "removed", repr(i))
            continue
        now = (got["document"][0], got["metadata"][0])
        if now == news[-1][:2]:
            model.items[i] = news[-1]
            model.slots += len(news)
        else:
            c.check(i in model.items and now == model.items[i][:2], where, "left", now, "under", repr(i))


def check_all(c, col, model, where):
    """Everything live, nothing else."""
    if col.get_index() is None:
        c.check(not model.items, where, "lost everything")
        return
    want = sorted(model.items)
    got = col.get_by_id(want)
    c.check(sorted(got["id"]) == want, where, "kept", sorted(got["id"]), "of", want)
    for i, d, m in zip(got["id"], got["document"], got["metadata"]):
        model.check_item(c, i, d, m, where)
    all_ = col.filter_query({}, limit=1000)
    c.check(sorted(all_["id"]) == want, where, "lists", sorted(all_["id"]), "instead of", want)
    cpp = col.get_cpp_index()
    for i, internal in zip(all_["id"], all_["internal_id"]):
        v = np.asarray(cpp.get_data_by_id(internal))
        w = model.items[i][2]
        c.check(v.shape == w.shape and np.allclose(v.astype(np.float64), w.astype(np.float64), rtol=1e-5, atol=1e-6), where, "keeps the vector", v, "for", repr(i), "instead of", w)


def check_rows(c, model, rows, q, flt, limit, where):
    ids, dists, docs, metas = rows
    n = len(ids)
    c.check(n <= limit, where, "gave", n, "rows for a limit of", limit)
    k = next((j for j in range(n) if ids[j] == ""), n)
    c.check(all(x == "" for x in ids[k:]), where, "has a gap in", ids)
    c.check(len(set(ids[:k])) == k, where, "repeats an item in", ids)
    prev = -math.inf
    vecs = model.vecs
    for j in range(k):
        i = ids[j]
        c.check(i in model.items, where, "returned", repr(i), "which is not in the collection")
        c.check(matches(flt, model.items[i][1]), where, "returned", repr(i), "with metadata", model.items[i][1], "for the filter", flt)
        d = vecs.distance(q, model.items[i][2])
        if dists is not None:
            c.check(close(dists[j], d), where, "gave the distance", dists[j], "for", repr(i), "instead of", d)
        c.check(d >= prev or close(d, prev), where, "is not in order:", ids[:k])
        prev = max(prev, d)
        if docs is not None:
            model.check_item(c, i, docs[j], metas[j], where)
    if dists is not None:
        c.check(all(x > BIG for x in dists[k:]), where, "gave distances for no item")
    return k


@prop("at least one delete or upsert and one query before the end, or a reopened collection", 1000, 15000, hang=120)
def P22_collection_histories(c):
    url = str(c.dir() / "db")
    state = {"client": Client(url)}
    col, kw, vecs = make(c, url, state["client"], "col")
    rab = kw["quantization_type"] == "rabitq"
    model = Model(vecs)
    ids = ids_pool(c)
    changed = queried = reopened = False
    cap = kw["capacity"]
    dtype = vecs.dtype

    def item(i=None):
        i = c.pick(ids) if i is None else i
        v = vecs.draw()
        return (i, text(c), v, metadata(c))

    def rec(it):
        return (it[1], it[3], vecs.stored(it[2]))

    def bad(it):
        kind = c.raw(4)
        if kind == 0:
            return (it[0], it[1], np.ones(vecs.dim + 1, dtype), it[3]), "a longer vector"
        if kind == 1:
            return ("", *it[1:]), "an empty id"
        if kind == 2:
            return (it[0], it[1], it[2], {"n": 2**70}), "an integer too large to store"
        if kind == 3 and vecs.dim > 1:
            return (it[0], it[1], np.ones(vecs.dim - 1, dtype), it[3]), "a shorter vector"
        return (None, *it[1:]), "no id"

    def layout(v):
        k = c.raw(3)
        if k == 0:
            return v
        if k == 1:
            return v.tolist() if dtype == np.float32 and col.get_index() is not None else v
        wide = np.zeros((len(v), 2), dtype)
        wide[:, 0] = v
        wide[:, 1] = 7
        return wide[:, 0]

    n0 = min(c.size(1, 40), cap)
    steps = c.range(2, 14)
    for step in range(steps):
        fresh = col.get_index() is None
        op = "insert" if fresh and c.chance(4, 5) else c.weighted(
            [(6, "insert"), (4, "upsert"), (4, "delete"), (2, "dfilter"), (4, "query"), (4, "hybrid"), (3, "filter"), (2, "get"), (1, "reindex"), (2, "reopen"), (1, "save")])
        if op in ("insert", "upsert"):
            count = n0 if fresh else c.range(1, 5)
            batch, problem = [], None
            used = set()
            for _ in range(count):
                it = item()
                if op == "insert" and it[0] in (set(model.items) | used) and not c.chance(1, 12):
                    left = [x for x in ids if x not in model.items and x not in used]
                    if not left:
                        break
                    it = (left[0], *it[1:])
                if fresh and it[0] in used and op == "upsert":
                    continue
                used.add(it[0])
                batch.append(it)
            if not batch:
                continue
            if c.chance(1, 10):
                at = c.raw(len(batch) - 1)
                batch[at], problem = bad(batch[at])
                if fresh and len(batch) == 1 and "vector" in problem:
                    continue
            sent = [(i, d, layout(v), m) for i, d, v, m in batch]
            # what the calls should do, in order
            expect, okay, seen = [], True, dict(model.items)
            slots = model.slots
            for k, it in enumerate(batch):
                i = it[0]
                if it[0] in ("", None) or len(it[2]) != vecs.dim or it[3].get("n") == 2**70:
                    okay = False
                elif op == "insert" and i in seen:
                    okay, problem = False, "a duplicate id"
                elif slots >= cap:
                    okay, problem = False, "a full collection"
                elif rab and not fresh:
                    okay, problem = False, "a collection that cannot be updated"
                if not okay:
                    break
                expect.append((i, rec(it)))
                seen[i] = rec(it)
                slots += 1
            where = f"{op} of {[b[0] for b in batch]} at step {step}"
            c.note(op, [b[0] for b in batch], problem or "")
            f = col.insert if op == "insert" else col.upsert
            if okay:
                f(sent)
                model.items, model.slots = seen, slots
                changed |= op == "upsert"
            else:
                c.label("refused: " + str(problem))
                c.raises(lambda: f(sent), kinds=(ValueError, RuntimeError, OverflowError, TypeError), what=f"{where} with {problem}")
                if not fresh:
                    adopt(c, col, model, expect, where)
                else:
                    c.check(col.get_index() is None, where, "left a collection behind")
        elif op == "delete":
            some = [c.pick(ids + ["missing"]) for _ in range(c.range(1, 4))]
            c.note("delete", some)
            live = [i for i in some if i in model.items]
            if rab and live and col.get_index() is not None:
                c.raises(lambda: col.delete_by_id(some), kinds=(RuntimeError,), what="deleting from a collection that cannot be updated")
            else:
                col.delete_by_id(some)
                for i in some:
                    changed |= i in model.items
                    model.items.pop(i, None)
        elif op == "dfilter":
            flt = gen_filter(c)
            size = c.pick([1000, 1, 3])
            c.note("delete where", flt, size)
            hit = [i for i in model.items if matches(flt, model.items[i][1])]
            if col.get_index() is None:
                c.raises(lambda: col.delete_by_filter(flt), kinds=(ValueError, RuntimeError), what="a delete from an empty collection")
            elif rab and hit:
                c.raises(lambda: col.delete_by_filter(flt, size), kinds=(RuntimeError,), what="deleting from a collection that cannot be updated")
            else:
                n = col.delete_by_filter(flt, size)
                c.check(n == len(hit), "deleting where", flt, "reported", n, "instead of", len(hit))
                for i in hit:
                    del model.items[i]
                    changed = True
        elif op in ("query", "hybrid"):
            if col.get_index() is None:
                c.raises(lambda: col.batch_query([[0.0] * vecs.dim], 1), kinds=(ValueError, RuntimeError), what="a query before the first insert")
                continue
            m = c.range(1, 4)
            qs = np.array([vecs.draw() for _ in range(m)])
            targets = []
            for j in range(m):
                if model.items and c.flip():
                    i = c.pick(sorted(model.items))
                    targets.append(i)
                    qs[j] = model.items[i][2]
            sent = {0: qs, 1: np.asfortranarray(qs), 2: np.repeat(qs, 2, axis=0)[::2]}[c.raw(2)]
            if m == 1 and c.flip():
                sent = qs[0]
            limit = c.pick([1, 3, 10, 50])
            ef = max(limit, c.pick([100, limit, 20]))
            threads = c.range(1, 3)
            queried = True
            if c.chance(1, 10):
                what, call = c.pick([
                    ("a query of another dimension", lambda: col.batch_query(np.ones((1, vecs.dim + 1)), 1)),
                    ("a width below the limit", lambda: col.batch_query(qs, 5, ef_search=4)),
                    ("no threads", lambda: col.batch_query(qs, 1, num_threads=0)),
                    ("a hybrid query of another dimension", lambda: col.hybrid_query(np.ones((1, vecs.dim + 1)), 1)),
                    ("an unknown hint", lambda: col.hybrid_query(qs, 1, filter_execution_hint="fast")),
                    ("an unknown operator", lambda: col.hybrid_query(qs, 1, metadata_filter={"n": {"$near": 1}})),
                ])
                c.raises(call, kinds=(ValueError, RuntimeError, TypeError), what=what)
                continue
            if op == "query":
                c.note("query", m, "limit", limit, "ef", ef, "threads", threads)
                if rab:
                    c.raises(lambda: col.batch_query(sent, limit, ef, threads), kinds=(RuntimeError,), what="a query with distances of a RaBitQ collection")
                    continue
                got = col.batch_query(sent, limit, ef, threads)
                c.check(len(got["id"]) == m, "a query of", m, "vectors gave", len(got["id"]), "rows")
                for j in range(m):
                    rows = [got[x][j] for x in ("id", "distance", "document", "metadata")]
                    k = check_rows(c, model, rows, qs[j], {}, limit, f"the query at step {step}")
                    c.check(k > 0 or not model.items, "a query of a collection with", len(model.items), "items found nothing")
            else:
                flt = gen_filter(c) if c.chance(4, 5) else None
                hint = c.pick([None, "auto", "disable", "bitset_prefilter", "iterative_filter", "Disable"])
                c.note("hybrid", m, flt, "limit", limit, "ef", ef, hint)
                got = col.hybrid_query(sent, limit, metadata_filter=flt, ef_search=ef, num_threads=threads, filter_execution_hint=hint)
                c.check(len(got["id"]) == m, "a hybrid query of", m, "vectors gave", len(got["id"]), "rows")
                for j in range(m):
                    where = f"the hybrid query at step {step}"
                    if rab:
                        row = got["id"][j]
                        k = next((x for x in range(len(row)) if row[x] == ""), len(row))
                        c.check(all(x == "" for x in row[k:]) and len(set(row[:k])) == k, where, "gave", row)
                        for i in row[:k]:
                            c.check(i in model.items and matches(flt, model.items[i][1]), where, "returned", repr(i), "for", flt)
                    else:
                        check_rows(c, model, (got["id"][j], None, None, None), qs[j], flt, limit, where)
        elif op == "filter":
            if col.get_index() is None:
                continue
            flt = gen_filter(c)
            limit = c.pick([100, 1, 2, 5])
            c.note("filter", flt, "limit", limit)
            got = col.filter_query(flt, limit)
            hit = {i for i in model.items if matches(flt, model.items[i][1])}
            c.label("a filter that separates", 0 < len(hit) < len(model.items))
            c.check(len(got["id"]) == min(limit, len(hit)) and len(set(got["id"])) == len(got["id"]) and set(got["id"]) <= hit,
                    "filter", flt, "limit", limit, "returned", got["id"], "of", sorted(hit))
            c.check(len(set(got["internal_id"])) == len(got["id"]), "filter repeats an internal id")
            for i, d, mm in zip(got["id"], got["document"], got["metadata"]):
                model.check_item(c, i, d, mm, "filter")
            queried = True
        elif op == "get":
            some = [c.pick(ids + ["missing"]) for _ in range(c.range(1, 6))]
            got = col.get_by_id(some)
            want = [i for i in some if i in model.items]
            c.check(got["id"] == want, "getting", some, "returned", got["id"], "instead of", want)
            for i, d, mm in zip(got["id"], got["document"], got["metadata"]):
                model.check_item(c, i, d, mm, "get")
        elif op == "reindex":
            if col.get_index() is None:
                continue
            c.note("reindex")
            c.label("reindex")
            col.reindex(c.pick([100, 400]), c.pick([None, 1, 3]))
            if model.items:
                model.slots = len(model.items)
            if len(model.items) > 1 and not rab:
                # the new index holds the vectors under the right ids; a search may miss a few of them
                some = sorted(model.items)
                got = col.batch_query([model.items[i][2] for i in some], min(5, len(some)))
                own = sum(d[0] <= 1e-3 for d in got["distance"])
                if vecs.metric in ("l2", "euclidean") and kw["max_nbrs"] == 32:
                    c.check(2 * own >= len(some), "after a reindex only", own, "of", len(some), "are found by their own vector")
        elif op in ("reopen", "save"):
            if col.get_index() is None:
                continue
            if op == "save" or c.flip():
                c.note("save")
                state["client"].save_collection("col")
            if op == "reopen":
                c.note("reopen")
                reopened = True
                if c.flip():
                    col.close()
                state["client"] = None
                f = cpp = col = None
                gc.collect()
                state["client"] = Client(url)
                c.check(state["client"].list_collections() == ["col"] and state["client"].list_indices() == [], "reopening lists", state["client"].list_collections())
                col = state["client"].get_collection("col")
        if c.chance(1, 3):
            check_all(c, col, model, f"{op} at step {step}")
    check_all(c, col, model, "the end")
    c.label("quantized " + kw["quantization_type"])
    c.label("reopened", reopened)
    c.nontrivial((changed and queried) or reopened)
    if c.flip():
        state["client"].delete_collection("col", delete_on_disk=True)
        c.check(not os.path.exists(os.path.join(url, "col")), "deleting on disk left files")
        c.check(Client(url).list_collections() == [], "a deleted collection came back")


@prop("an index with removals and inserts, queried or reopened", 2000, 40000, hang=120)
def P22_index_histories(c):
    url = str(c.dir() / "db")
    client = Client(url)
    quant = c.weighted([(6, "none"), (2, "sq8"), (2, "sq4"), (1, "rabitq")])
    dtype = np.float32 if quant != "none" else c.weighted([(4, np.float32), (1, np.int8), (1, np.uint8)])
    metric = c.pick(["l2", "ip", "cosine", "Cosine"] if dtype == np.float32 else ["l2", "ip"])
    dim = c.pick([64, 96]) if quant == "rabitq" else c.pick([1, 2, 5, 16, 31])
    vecs = Vectors(c, dim, dtype, metric)
    n = c.size(1, 60)
    cap = n + c.pick([20, 3, 0])
    rab = quant == "rabitq"
    idx = client.create_index("ix", metric=metric, quantization_type=quant, index_type=c.pick(["hnsw", "nsg", "fusion"]), capacity=cap,
                              max_nbrs=c.pick([32, 8]), id_type=np.uint32 if rab else c.pick([np.uint32, np.uint64]))
    data = np.array([vecs.draw() for _ in range(n)]).reshape(n, dim)
    c.note(quant, np.dtype(dtype).name, metric, "n", n, "dim", dim, "capacity", cap)
    idx.fit({0: data, 1: np.asfortranarray(data), 2: np.repeat(data, 2, axis=0)[::2]}[c.raw(2)], ef_construction=100, num_threads=c.range(1, 3))
    model = {i: vecs.stored(data[i]) for i in range(n)}
    slots = n
    saved = None
    changed = queried = False

    def check_row(ids, dists, q, k):
        ids = [int(x) for x in ids]
        absent = 2**32 - 1 if max(ids, default=0) < 2**32 else 2**64 - 1
        m = next((j for j, x in enumerate(ids) if x in (2**32 - 1, 2**64 - 1)), len(ids))
        c.check(all(x == absent for x in ids[m:]), "a gap in", ids)
        c.check(len(set(ids[:m])) == m and all(x in model for x in ids[:m]), "the search returned", ids[:m], "of live", sorted(model))
        c.check(m > 0 or not model or k == 0, "the search found nothing")
        prev = -math.inf
        for j in range(m):
            d = vecs.distance(q, model[ids[j]])
            if dists is not None:
                c.check(close(float(dists[j]), d), "distance", dists[j], "for", ids[j], "instead of", d)
            if not rab:
                c.check(d >= prev or close(d, prev), "not in order", ids)
            prev = max(prev, d)

    for step in range(c.range(1, 14)):
        op = c.weighted([(5, "insert"), (4, "remove"), (4, "search"), (4, "batch"), (2, "bad"), (2, "save"), (2, "reopen"), (1, "get")])
        if op == "insert":
            v = vecs.draw()
            sent = v if c.flip() else np.repeat(v, 2)[::2]
            if rab or slots >= cap:
                c.raises(lambda: idx.insert(sent), kinds=(RuntimeError,), what="an insert into a full index" if not rab else "an insert into a RaBitQ index")
                c.label("full")
            else:
                i = int(idx.insert(sent))
                c.note("insert", i)
                c.check(i not in model and 0 <= i < cap, "an insert was given the id", i)
                model[i] = vecs.stored(v)
                slots += 1
                changed = True
        elif op == "remove":
            if not model or rab:
                continue
            i = c.pick(sorted(model))
            c.note("remove", i)
            idx.remove(i)
            del model[i]
            changed = True
        elif op in ("search", "batch"):
            m = 1 if op == "search" else c.range(1, 6)
            qs = np.array([model[c.pick(sorted(model))] if model and c.flip() else vecs.draw() for _ in range(m)]).reshape(m, dim)
            k = c.pick([1, 3, 10])
            ef = max(k, c.pick([100, k]))
            sent = {0: qs, 1: np.asfortranarray(qs), 2: np.repeat(qs, 2, axis=0)[::2]}[c.raw(2)]
            queried = True
            c.note(op, m, k, ef)
            if op == "search":
                s = sent[0] if c.flip() else np.repeat(qs[0], 2)[::2]
                r = idx.search(s, k, ef)
                c.check(len(r) == k, "a search for", k, "gave", len(r))
                check_row(r, None, qs[0], k)
            else:
                t = c.range(1, 3)
                r = idx.batch_search(sent, k, ef, t)
                c.check(r.shape == (m, k), "a batch search gave", r.shape)
                for j in range(m):
                    check_row(r[j], None, qs[j], k)
                if not rab:
                    i, d = idx.batch_search_with_distance(sent, k, ef, t)
                    c.check(i.shape == (m, k) and d.shape == (m, k), "a batch search gave", i.shape)
                    for j in range(m):
                        check_row(i[j], d[j], qs[j], k)
        elif op == "bad":
            what, call = c.pick([
                ("a search of another dimension", lambda: idx.search(np.ones(dim + 1, dtype), 1)),
                ("a batch of another dimension", lambda: idx.batch_search(np.ones((2, dim + 1), dtype), 1)),
                ("a width below k", lambda: idx.batch_search(np.ones((1, dim), dtype), 5, 4)),
                ("a width below k", lambda: idx.search(np.ones(dim, dtype), 5, 4)),
                ("no threads", lambda: idx.batch_search(np.ones((1, dim), dtype), 1, 10, 0)),
                ("an insert of another dimension", lambda: idx.insert(np.ones(dim + 1, dtype))),
                ("a second fit", lambda: idx.fit(data)),
                ("removing an id beyond the capacity", lambda: idx.remove(cap + c.raw(1000000))),
                ("reading an id beyond the capacity", lambda: idx.get_data_by_id(cap + 5)),
            ])
            c.note("refused:", what)
            c.raises(call, kinds=(ValueError, RuntimeError, IndexError, TypeError), what=what)
        elif op == "get":
            for i in model:
                c.check(np.allclose(idx.get_data_by_id(i), model[i], rtol=1e-5, atol=1e-6), "the vector of", i, "is", idx.get_data_by_id(i), "instead of", model[i])
        elif op == "save":
            client.save_index("ix")
            saved = (dict(model), slots)
            c.note("save")
        elif op == "reopen" and saved is not None:
            c.note("reopen")
            c.label("reopened")
            changed = queried = True
            idx = client = call = None
            gc.collect()
            client = Client(url)
            c.check(client.list_indices() == ["ix"] and client.list_collections() == [], "reopening lists", client.list_indices())
            idx = client.get_index("ix")
            model, slots = dict(saved[0]), saved[1]
            for i in model:
                c.check(np.allclose(idx.get_data_by_id(i), model[i], rtol=1e-5, atol=1e-6), "reopened, the vector of", i, "is", idx.get_data_by_id(i))
    c.label("quantized " + quant)
    c.nontrivial(changed and queried)


@prop("several collections or indices and a reopened client", 1500, 30000, hang=120)
def P22_client_histories(c):
    url = str(c.dir() / "db")
    client = Client(url)
    mem, disk, blocked = {}, {}, set()  # name -> (kind, contents); names whose files are still there
    names = ["a", "b", "c d", "\u00e9"]
    r = c.np()
    reopened = 0

    def contents(kind, o):
        if kind == "collection":
            return None if o.get_index() is None else sorted(zip(*[o.filter_query({}, 100)[k] for k in ("id", "document")]))
        return None if o.get_cpp_index() is None else [int(x) for x in o.search(np.ones(3, np.float32), 1)]

    def look(where):
        c.check(sorted(client.list_collections()) == sorted(n for n in mem if mem[n][0] == "collection"), where, "lists collections", client.list_collections(), "instead of", mem)
        c.check(sorted(client.list_indices()) == sorted(n for n in mem if mem[n][0] == "index"), where, "lists indices", client.list_indices(), "instead of", mem)
        for n in names:
            col, ix = client.get_collection(n), client.get_index(n)
            kind = mem[n][0] if n in mem else None
            c.check((col is not None) == (kind == "collection") and (ix is not None) == (kind == "index"), where, "get of", n, "is wrong")
            if kind:
                got = contents(kind, col or ix)
                c.check(got == mem[n][1], where, n, "holds", got, "instead of", mem[n][1])

    for step in range(c.range(2, 14)):
        op = c.weighted([(4, "create"), (2, "goc"), (5, "fill"), (2, "delete"), (1, "reset"), (3, "save"), (4, "reopen"), (1, "missing")])
        n = c.pick(names)
        kind = c.pick(["collection", "index"])
        c.note(op, repr(n), kind)
        if op == "create":
            f = client.create_collection if kind == "collection" else client.create_index
            if n in mem:
                c.raises(lambda: f(n), kinds=(RuntimeError,), what=f"creating {n} twice")
            elif n not in blocked:
                f(n, capacity=50)
                mem[n] = [kind, None]
        elif op == "goc":
            f = client.get_or_create_collection if kind == "collection" else client.get_or_create_index
            if n in mem and mem[n][0] != kind:
                c.raises(lambda: f(n), kinds=(RuntimeError,), what=f"getting or creating {n} as another kind")
            elif n in mem:
                c.check(f(n) is (client.get_collection(n) if kind == "collection" else client.get_index(n)), "get or create made another object")
            elif n not in blocked:
                f(n, capacity=50)
                mem[n] = [kind, None]
        elif op == "fill" and n in mem:
            if mem[n][0] == "collection":
                col = client.get_collection(n)
                i = f"i{step}"
                if len(mem[n][1] or []) < 40:
                    col.insert([(i, f"{n}{step}", r.standard_normal(3).astype(np.float32), {})])
                    mem[n][1] = sorted((mem[n][1] or []) + [(i, f"{n}{step}")])
                    disk[n] = mem[n]  # collections with a url are durable
            elif mem[n][1] is None:
                client.get_index(n).fit(r.standard_normal((5, 3)).astype(np.float32))
                mem[n][1] = contents("index", client.get_index(n))
        elif op == "delete":
            on_disk = c.flip()
            f = client.delete_collection if kind == "collection" else client.delete_index
            if n not in mem or mem[n][0] != kind:
                c.raises(lambda: f(n, on_disk), kinds=(RuntimeError,), what=f"deleting {n}")
            else:
                f(n, on_disk)
                del mem[n]
                if on_disk:
                    disk.pop(n, None)
                    c.check(not os.path.exists(os.path.join(url, n)), "deleting", n, "on disk left files")
                elif os.path.exists(os.path.join(url, n)):
                    blocked.add(n)
        elif op == "reset":
            on_disk = c.flip()
            client.reset(on_disk)
            for x in list(mem):
                if on_disk:
                    disk.pop(x, None)
                    c.check(not os.path.exists(os.path.join(url, x)), "reset left files of", x)
                elif os.path.exists(os.path.join(url, x)):
                    blocked.add(x)
            mem = {}
        elif op == "save":
            f = client.save_collection if kind == "collection" else client.save_index
            if n not in mem or mem[n][0] != kind:
                c.raises(lambda: f(n), kinds=(RuntimeError,), what=f"saving {n}")
            elif mem[n][1] is None:
                c.raises(lambda: f(n), what=f"saving {n} before its first data")
            else:
                f(n)
                disk[n] = [mem[n][0], mem[n][1]] if kind == "index" else mem[n]
        elif op == "missing":
            c.raises(lambda: client.delete_collection("nope"), kinds=(RuntimeError,), what="deleting what is not there")
            c.raises(lambda: client.save_index("nope"), kinds=(RuntimeError,), what="saving what is not there")
            c.check(client.get_collection("nope") is None and client.get_index("nope") is None, "something was made up")
            c.raises(lambda: Client().save_collection("a"), kinds=(RuntimeError,), what="saving without a url")
            c.raises(lambda: Client().reset(True), kinds=(RuntimeError,), what="resetting on disk without a url")
        elif op == "reopen":
            f = col = client = None
            gc.collect()
            client = Client(url)
            mem = {x: [disk[x][0], disk[x][1]] for x in disk}
            for x in mem:
                if mem[x][0] == "collection":
                    disk[x] = mem[x]
            blocked = {x for x in names if x not in mem and os.path.exists(os.path.join(url, x))}
            reopened += 1
        look(f"{op} {n!r} at step {step}")
    c.nontrivial(reopened and len(mem) > 1)


if __name__ == "__main__":
    pypbt.main()
