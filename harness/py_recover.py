"""P11: durable collections and indices of the real Python package across clean exits, kills and full disks. Every
session with the database runs in a process of its own; file operations are counted, and at a chosen one the process
stops or the call fails."""
import ctypes, gc, json, math, os, shutil, signal, struct, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
PRELOAD = os.path.join(os.path.dirname(os.environ["VERIF_STAGED"]), "crash_preload.so")
if PRELOAD not in os.environ.get("LD_PRELOAD", ""):
    os.environ["LD_PRELOAD"] = PRELOAD
    os.execv(sys.executable, [sys.executable, *sys.argv])
sys.path.insert(0, HERE)
import pypbt
from pypbt import prop
sys.path.insert(0, os.environ["VERIF_STAGED"])
import numpy as np
from alayalite import Client  # noqa: E402

del os.environ["LD_PRELOAD"]
FAULT = ctypes.CDLL(PRELOAD)
FAULT.crash_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_double, ctypes.c_int]
FAULT.crash_seen.restype = ctypes.c_long
DIM = 4
KILLED = 77


def vec(seed):
    return np.random.default_rng(seed).integers(-50, 50, DIM).astype(np.float32)


def session(c, url, body, fault):
    """Runs body(say) in a child; returns its messages and how it ended."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(60)

            def say(*a):
                os.write(w, (json.dumps(a) + "\n").encode())

            def arm():
                FAULT.crash_arm(url.encode(), fault["kill"], fault["target"], fault["partial"], fault["sticky"])
            try:
                body(say, arm)
            except Exception as e:
                where = " <- ".join(f"{os.path.basename(t.filename)}:{t.lineno}" for t in reversed(traceback.extract_tb(e.__traceback__)[-4:]))
                say("raised", f"{type(e).__name__}: {e} at {where}")
            say("seen", FAULT.crash_seen())
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    c.check(code in (0, KILLED), "the process ended with", code)
    lines = data.split(b"\n")
    out = [json.loads(x) for x in lines[:-1] if x]
    return out, code != 0


def new_fault(c, steps):
    """Nothing, or a kill or failure at some file operation after some step (-1: before the database is opened)."""
    kind = c.weighted([(3, "none"), (5, "kill"), (3, "fail")])
    f = dict(kill=kind == "kill", target=-1, partial=0.0, sticky=0, at=None)
    if kind != "none":
        f["target"] = c.raw(c.pick([4, 12, 40, 150, 500]))
        f["partial"] = c.pick([0.0, 0.3, 0.9])
        f["at"] = c.range(-1, max(0, steps - 1))
        if kind == "fail":
            f["sticky"] = c.raw(1)
    return f


# ---- collections ----
def item_of(k):
    return f"text {k}", {"k": k, "even": k % 2 == 0, "name": f"n{k}"}, vec(k)


def state_json(col):
    got = col.filter_query({}, limit=1000)
    cpp = col.get_cpp_index()
    return {i: [d, m, [float(x) for x in cpp.get_data_by_id(n)]]
            for i, d, m, n in zip(got["id"], got["document"], got["metadata"], got["internal_id"])}, len(got["id"])


def expected(k, metric):
    d, m, v = item_of(k)
    return [d, m, [float(x) for x in v]]


class Refused(Exception):
    pass


def apply(state, op, part=None):
    """The state after (part of) an operation; Refused if it has to be refused. States map ids to item numbers."""
    s = dict(state)
    kind = op[0]
    if kind in ("insert", "upsert"):
        for i, k in op[1][:part]:
            if kind == "insert" and i in s:
                raise Refused()
            s[i] = k
    elif kind == "delete":
        for i in op[1][:part]:
            s.pop(i, None)
    elif kind == "dfilter":
        hit = [i for i in s if s[i] % 2 == 0]
        for i in hit[:part]:
            del s[i]
    return s


def parts(state, op):
    """Every state an interrupted operation may leave: some of its items done."""
    out = [state]
    n = len(op[1]) if op[0] in ("insert", "upsert", "delete") else len(state) if op[0] == "dfilter" else 0
    if op[0] == "dfilter":  # in any order
        hit = [i for i in state if state[i] % 2 == 0]
        for mask in range(1, 1 << min(len(hit), 8)):
            out.append({i: k for i, k in state.items() if not (i in hit[:8] and mask >> hit.index(i) & 1)})
        return out
    for p in range(1, n + 1):
        try:
            s = apply(state, op, p)
        except Refused:
            break
        out.append(s)
    return out


def uniq(states):
    seen, out = set(), []
    for s in states:
        key = None if s is None else tuple(sorted(s.items()))
        if key not in seen:
            seen.add(key)
            out.append(s)
    return out


def run_op(client, name, col, op):
    if op[0] in ("insert", "upsert"):
        batch = [(i, *(lambda t: (t[0], t[2], t[1]))(item_of(k))) for i, k in op[1]]
        (col.insert if op[0] == "insert" else col.upsert)(batch)
    elif op[0] == "delete":
        col.delete_by_id(op[1])
    elif op[0] == "dfilter":
        col.delete_by_filter({"even": True}, op[1])
    elif op[0] == "save":
        client.save_collection(name)
    elif op[0] == "reindex":
        col.reindex(100)
    elif op[0] == "query":
        col.batch_query([[0.0] * DIM], 3)


@prop("a session that was killed, failed or left without a save, with changes before it", 400, 8000, hang=200)
def P11_collections(c):
    url = str(c.dir() / "db")
    kw = dict(metric=c.pick(["l2", "euclidean"]), quantization_type=c.weighted([(4, "none"), (1, "sq8"), (1, "sq4")]), max_nbrs=32, capacity=64,
              indexed_fields=c.pick([[], ["k", "even"], ["name"]]))
    id_type = c.pick([np.uint32, np.uint64])
    c.note(kw)
    names = 0
    name = "col0"
    states = [None]  # None: no such collection; otherwise id -> item number
    item = 0
    ids = [f"id{i}" for i in range(8)]
    for s in range(c.range(1, 4)):
        ops = []
        for _ in range(c.range(1, 7)):
            kind = c.weighted([(5, "insert"), (5, "upsert"), (4, "delete"), (1, "dfilter"), (2, "save"), (1, "reindex"), (1, "query")])
            if kind in ("insert", "upsert"):
                b = []
                for _ in range(c.range(1, 3)):
                    b.append((c.pick(ids), item))
                    item += 1
                ops.append((kind, b))
            elif kind == "delete":
                ops.append((kind, [c.pick(ids) for _ in range(c.range(1, 2))]))
            elif kind == "dfilter":
                ops.append((kind, c.pick([1, 1000])))
            else:
                ops.append((kind,))
        if states == [None] and ops[0][0] not in ("insert", "upsert"):
            ops.insert(0, ("insert", [(f"id{i}", item + i) for i in range(c.range(1, 6))]))
            item += 6
        fault = new_fault(c, len(ops))
        end = c.pick(["exit", "close", "drop"])
        c.note(f"session {s}:", *[(o[0], *([[x[0] for x in o[1]] if o[0] in ("insert", "upsert") else o[1]] if len(o) > 1 else [])) for o in ops],
               {k: v for k, v in fault.items() if v} if fault["at"] is not None else "no fault", end)

        def body(say, arm, ops=ops, fault=fault, end=end, name=name):
            if fault["at"] == -1:
                arm()
            client = Client(url)
            say("open", client.list_collections(), client.list_indices())
            col = client.get_collection(name)
            if col is not None:
                say("state", *state_json(col))
            else:
                col = client.create_collection(name, id_type=id_type, **kw)
                say("absent")
            for j, op in enumerate(ops):
                if j == fault["at"]:
                    arm()
                say("start", j)
                try:
                    run_op(client, name, col, op)
                    say("done", j)
                except Exception as e:
                    say("refused", j, f"{type(e).__name__}: {e}")
                    if col.get_index() is None:
                        return  # nothing there to go on with
            if end == "close":
                col.close()
            elif end == "drop":
                col = None
                client = None
                gc.collect()

        out, killed = session(c, url, body, fault)
        c.label("killed", killed)
        opened = False
        failing = False  # a failing call may have been met
        last = None
        for m in out:
            if m[0] == "open":
                c.check(set(m[1]) <= {f"col{i}" for i in range(names + 1)} and m[2] == [], "the client lists", m[1], m[2])
            elif m[0] == "absent":
                opened = True
                c.check(None in states, f"session {s}: the collection is gone; it held", states)
                states = [None]
            elif m[0] == "state":
                opened = True
                c.check(len(m[1]) == m[2], "an id is listed twice")
                ok = [x for x in states if x is not None and {i: expected(k, 0) for i, k in x.items()} == m[1]]
                c.check(ok, f"session {s}: reopened with", {i: v[0] for i, v in sorted(m[1].items())}, "instead of", [x and dict(sorted(x.items())) for x in states[:4]], m[1])
                states = ok[:1]
            elif m[0] == "start":
                last = m[1]
            elif m[0] == "done":
                failing = failing or (fault["at"] is not None and not fault["kill"] and m[1] >= fault["at"])
                op = ops[m[1]]
                nxt = []
                for x in states:
                    if x is None and op[0] in ("insert", "upsert"):
                        b = [i for i, _ in op[1]]
                        if len(set(b)) < len(b):
                            continue
                        nxt.append({i: k for i, k in op[1]})
                    elif x is None:
                        nxt.append(None)
                    elif x is not None:
                        try:
                            nxt.append(apply(x, op))
                        except Refused:
                            pass
                        if failing and len(states) > 1 and op[0] in ("delete", "dfilter"):
                            nxt.append(x)  # what a failed update already removed from memory is not deleted again
                c.check(nxt, f"session {s}:", op, "was accepted in", states)
                states = uniq(nxt)
                last = None
            elif m[0] == "refused":
                failing = failing or (fault["at"] is not None and not fault["kill"] and m[1] >= fault["at"])
                op = ops[m[1]]
                last = None
                okay, bad = [], []
                for x in states:
                    if x is None:
                        b = [i for i, _ in op[1]] if op[0] in ("insert", "upsert") else []
                        if op[0] not in ("insert", "upsert", "delete") or len(set(b)) < len(b):
                            bad.append(x)
                        else:
                            okay.append(x)
                        continue
                    try:
                        apply(x, op)
                        okay.append(x)
                    except Refused:
                        bad += [parts(x, op)[-1]]
                if okay and not failing:
                    c.check(bad, f"session {s}:", op, "was refused:", m[2])
                    states = bad
                elif failing:
                    c.label("failed by a full disk")
                    nxt = []
                    for x in states:
                        nxt += [None, {i: k for i, k in op[1]} if op[0] in ("insert", "upsert") else None] if x is None else parts(x, op)
                    states = uniq(nxt)
                else:
                    states = uniq(bad)
            elif m[0] == "raised":
                c.check(fault["at"] is not None and not fault["kill"], f"session {s}: opening or closing the database failed:", m[1])
                c.label("could not open on a full disk", not opened)
        if killed and last is not None:
            op = ops[last]
            nxt = []
            for x in states:
                nxt += [None, {i: k for i, k in op[1]} if op[0] in ("insert", "upsert") else None] if x is None else parts(x, op)
            states = uniq(nxt)
        c.nontrivial(opened and (killed or fault["at"] is not None or not any(o[0] == "save" for o in ops[-1:])) and len(ops) > 1)
        if None in states and os.path.exists(os.path.join(url, name)):
            # An interrupted creation: the collection is there, or its directory has to be removed by hand.
            def body2(say, arm, name=name):
                client = Client(url)
                col = client.get_collection(name)
                say("is", None if col is None else state_json(col)[0])
            out, _ = session(c, url, body2, dict(kill=0, target=-1, partial=0, sticky=0))
            c.check(out and out[0][0] == "is", "the client does not open after an interrupted creation:", out)
            if out[0][1] is None:
                names += 1
                name = f"col{names}"
                states = [None]
            else:
                ok = [x for x in states if x is not None and {i: expected(k, 0) for i, k in x.items()} == out[0][1]]
                c.check(ok, "an interrupted creation left", sorted(out[0][1]), "of", states)
                states = ok

    def final(say, arm, name=name):
        client = Client(url)
        col = client.get_collection(name)
        if col is None:
            say("absent")
            return
        st, n = state_json(col)
        found = 0
        if st:
            order = sorted(st)
            got = col.batch_query([st[i][2] for i in order], min(3, len(order)))
            found = sum(d[0] == 0 for d in got["distance"])
            for q, row, ds in zip(order, got["id"], got["distance"]):
                for i, d in zip(row, ds):
                    if i:
                        want = sum((a - b) ** 2 for a, b in zip(st[q][2], st[i][2])) if i in st else -1
                        if abs(d - want) > 1e-3 * max(1, want):
                            say("wrong", q, i, d, want)
            g = col.get_by_id(order)
            if g["id"] != order or g["document"] != [st[i][0] for i in order]:
                say("wrong", "get_by_id", g["id"])
        for k in range(3):  # still usable
            col.upsert([(f"new{k}", "t", vec(k), {})])
        say("state", st, n, found, len(col.get_by_id([f"new{k}" for k in range(3)])["id"]))

    out, _ = session(c, url, final, dict(kill=0, target=-1, partial=0, sticky=0))
    for m in out:
        if m[0] == "absent":
            c.check(None in states, "at the end the collection is gone; it held", states)
        elif m[0] == "state":
            ok = [x for x in states if x is not None and {i: expected(k, 0) for i, k in x.items()} == m[1]]
            c.check(ok and m[2] == len(m[1]), "at the end it holds", {i: v[0] for i, v in sorted(m[1].items())}, "instead of", [x and dict(sorted(x.items())) for x in states[:4]])
            c.check(2 * m[3] >= len(m[1]), "only", m[3], "of", len(m[1]), "items are found by their own vector")
            c.check(m[4] == 3, "the reopened collection does not take new items")
        elif m[0] == "wrong":
            c.fail("after reopening a search gives", m[1:])
        elif m[0] == "raised":
            c.fail("the last opening failed:", m[1])


# ---- indices with a recovery log ----
@prop("a session that was killed, failed or left without a save, with changes before it", 300, 6000, hang=200)
def P11_indices(c):
    url = str(c.dir() / "db")
    quant = c.weighted([(4, "none"), (1, "sq8"), (1, "sq4")])
    n = c.range(1, 10)
    data = np.array([vec(i) for i in range(n)])

    def create(say, arm):
        client = Client(url)
        ix = client.create_index("ix", metric="l2", quantization_type=quant, capacity=64, max_nbrs=32, rocksdb_path=os.path.join(url, "ix", "rocksdb"))
        ix.fit(data, ef_construction=100)
        client.save_index("ix")
        say("ok")
    out, _ = session(c, url, create, dict(kill=0, target=-1, partial=0, sticky=0))
    c.check(out[0] == ["ok"], "creating the index failed:", out)
    # The live internal ids with their vectors, and how many internal ids were given out.
    states = [({i: i for i in range(n)}, n)]
    item = 100

    def tidy(pairs):
        seen, res = set(), []
        for x, sl in pairs:
            key = (tuple(sorted(x.items())), sl)
            if key not in seen:
                seen.add(key)
                res.append((x, sl))
        return res

    def after(x, sl, op):
        kind, k = op
        y = dict(x)
        if kind == "insert":
            y[sl] = k
            return y, sl + 1
        if kind == "remove":
            y.pop(k, None)
        return y, sl

    c.note("index of", n, quant)
    for s in range(c.range(1, 4)):
        ops = []
        for _ in range(c.range(1, 7)):
            k = c.weighted([(5, "insert"), (4, "remove"), (1, "save")])
            ops.append((k, item if k == "insert" else c.raw(15)))
            item += 1
        fault = new_fault(c, len(ops))
        c.note(f"session {s}:", *ops, {k: v for k, v in fault.items() if v} if fault["at"] is not None else "no fault")

        def body(say, arm, ops=ops, fault=fault):
            if fault["at"] == -1:
                arm()
            client = Client(url)
            ix = client.get_index("ix")
            cpp = ix.get_cpp_index()
            say("open", cpp.get_data_num(), [[float(x) for x in ix.get_data_by_id(i)] for i in range(cpp.get_data_num())],
                [[int(x) for x in ix.search(vec(q), 40, 100)] for q in range(3)])
            for j, (kind, k) in enumerate(ops):
                if j == fault["at"]:
                    arm()
                say("start", j)
                got = 0
                try:
                    if kind == "insert":
                        got = int(ix.insert(vec(k)))
                    elif kind == "remove":
                        if k < cpp.get_data_num():
                            ix.remove(k)
                    else:
                        client.save_index("ix")
                except Exception as e:
                    say("refused", j, f"{type(e).__name__}: {e}")
                    continue
                say("done", j, got)
        out, killed = session(c, url, body, fault)
        c.label("killed", killed)
        last = None
        for m in out:
            if m[0] == "open":
                ok = []
                for x, slots in states:
                    live = all(i < m[1] and m[2][i] == [float(y) for y in vec(k)] for i, k in x.items())
                    rows = all(set(r) - {2**32 - 1} <= set(x) for r in m[3])
                    if live and rows and m[1] == slots and (not x or all(len(set(r) & set(x)) * 2 >= len(x) for r in m[3])):
                        ok.append((x, slots))
                c.check(ok, f"session {s}: reopened with", m[1], "places and searches giving", m[3], "instead of", states)
                states = ok  # an insert no search has returned yet may still be there
            elif m[0] == "start":
                last = m[1]
            elif m[0] == "done":
                op = ops[m[1]]
                last = None
                if op[0] == "insert":
                    c.check(m[2] in {sl for _, sl in states}, "an insert was given the id", m[2], "instead of", {sl for _, sl in states})
                states = tidy([after(x, sl, op) for x, sl in states if op[0] != "insert" or sl == m[2]])
            elif m[0] == "refused":
                op = ops[m[1]]
                last = None
                c.check(fault["at"] is not None and not fault["kill"] and m[1] >= fault["at"] or
                        op[0] == "remove", f"session {s}:", op, "was refused:", m[2])
                c.label("failed by a full disk")
                if fault["at"] is not None:  # whether it took place is open; an insert may have used up its place
                    states = tidy([p for x, sl in states for p in [(x, sl), after(x, sl, op)] + ([(x, sl + 1)] if op[0] == "insert" else [])])
            elif m[0] == "raised":
                c.check(fault["at"] is not None and not fault["kill"], f"session {s}: opening or closing the database failed:", m[1])
                c.label("could not open on a full disk")
        if killed and last is not None:
            states = tidy([p for x, sl in states for p in ((x, sl), after(x, sl, ops[last]))])
        c.nontrivial(killed or len(ops) > 1)


if __name__ == "__main__":
    pypbt.main()
