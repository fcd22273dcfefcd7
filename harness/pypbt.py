"""Property-based testing engine for the Python harnesses: the same idea as pbt.hpp. Every random decision of a case is
one number on a tape; cases run in forked workers, so that an exception, a crash of native code or a hang is attributed
to its tape, shrunk and replayed."""
import hashlib, json, mmap, os, random, shutil, signal, sys, tempfile, time, traceback
from pathlib import Path

TAPE = 1 << 14
NOTE = 8192
PROPS = []


class Reject(Exception):
    pass


class Failure(Exception):
    pass


class Slot:
    """Shared memory: [0] tape length, [1] case index, [2] start in ms, [3] state, then the tape and the note."""

    def __init__(self):
        self.mm = mmap.mmap(-1, (4 + TAPE) * 8 + NOTE * 2)
        self.q = memoryview(self.mm)[:(4 + TAPE) * 8].cast("Q")

    def text(self, i, s=None):
        off = (4 + TAPE) * 8 + i * NOTE
        if s is None:
            return self.mm[off:off + NOTE].split(b"\0", 1)[0].decode("utf-8", "replace")
        b = s.encode("utf-8", "replace").replace(b"\0", b"?")[:NOTE - 1]
        self.mm[off:off + len(b) + 1] = b + b"\0"

    def tape(self):
        return list(self.q[4:4 + self.q[0]])


class Case:
    def __init__(self, slot, scratch, seed=None, tape=None):
        self.slot, self.scratch, self.replay = slot, scratch, tape
        self.rng = random.Random(seed)
        self.pos = self.checks = 0
        self.labels, self.notes, self.is_nontrivial, self._dir = set(), [], False, None
        slot.q[0] = 0
        slot.text(0, "")

    def raw(self, top):
        if self.pos >= TAPE:
            raise Reject()
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            if v > top:
                v %= top + 1
        else:
            v = self.rng.randint(0, top)
        self.slot.q[4 + self.pos] = v
        self.pos += 1
        self.slot.q[0] = self.pos
        return v

    def range(self, lo, hi):
        return lo + self.raw(hi - lo)

    def size(self, lo, hi):
        if hi <= lo:
            return lo
        k = self.raw(5)
        return lo + self.raw(min(hi - lo, 8 if k < 2 else 40 if k < 4 else hi - lo))

    def chance(self, n, d):
        return self.raw(d - 1) >= d - n

    def flip(self):
        return self.raw(1) == 1

    def pick(self, xs):
        return xs[self.raw(len(xs) - 1)]

    def weighted(self, pairs):
        v = self.raw(sum(w for w, _ in pairs) - 1)
        for w, x in pairs:
            if v < w:
                return x
            v -= w

    def np(self):
        import numpy as np
        return np.random.default_rng(self.raw(0xffffffff))

    def dir(self):
        if self._dir is None:
            self._dir = Path(tempfile.mkdtemp(prefix="c", dir=self.scratch))
        return self._dir

    def label(self, s, on=True):
        if on:
            self.labels.add(s)

    def nontrivial(self, on=True):
        self.is_nontrivial = self.is_nontrivial or bool(on)

    def note(self, *a):
        self.notes.append(" ".join(str(x) for x in a))
        self.slot.text(0, "; ".join(self.notes))

    def fail(self, *a):
        raise Failure(" ".join(str(x) for x in a))

    def check(self, ok, *a):
        self.checks += 1
        if not ok:
            self.fail(*a)

    def raises(self, f, *a, kinds=(Exception,), what=""):
        """f() must raise one of the kinds."""
        self.checks += 1
        try:
            f(*a)
        except kinds:
            return
        except Exception as e:
            self.fail(f"{what} raised {type(e).__name__}: {e}")
        self.fail(f"{what} was accepted")

    def assume(self, ok):
        if not ok:
            raise Reject()

    def done(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)


def prop(rule, quick, thorough, hang=60, repro=3, workers=8):
    def deco(f):
        PROPS.append(dict(name=f.__name__, f=f, rule=rule, quick=quick, thorough=thorough, hang=hang, repro=repro, workers=workers))
        return f
    return deco


def _mix(*xs):
    return int.from_bytes(hashlib.sha256(repr(xs).encode()).digest()[:8], "little")


def run_case(p, c):
    """'ok', 'reject' or a failure message."""
    try:
        p["f"](c)
        return "ok", ""
    except Reject:
        return "reject", ""
    except Failure as e:
        return "fail", str(e)
    except Exception as e:  # an exception the check did not expect
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(t.filename)}:{t.lineno} {t.name}" for t in reversed(tb[-5:]))
        return "fail", f"unexpected {type(e).__name__}: {e} at {where}"
    finally:
        c.done()


class Runner:
    def __init__(self):
        import argparse
        a = argparse.ArgumentParser()
        for o in ("property", "part", "out", "replay-dir", "replay", "only"):
            a.add_argument("--" + o)
        a.add_argument("--max-seconds", type=float, default=1e9)
        self.a = a.parse_args()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.thorough = os.environ.get("VERIF_TIER", "quick") == "thorough"
        self.scale = float(os.environ.get("PBT_SCALE", "1"))
        self.jobs = min(8, os.cpu_count() or 1)
        self.scratch = tempfile.mkdtemp(prefix="pypbt_", dir=os.environ.get("PBT_SCRATCH", "/tmp"))

    def quiet(self, w):
        fd = os.open(os.path.join(self.scratch, f"w{w}.err"), os.O_CREAT | os.O_TRUNC | os.O_WRONLY)
        os.dup2(fd, 1)
        os.dup2(fd, 2)

    def err_tail(self, w):
        try:
            with open(os.path.join(self.scratch, f"w{w}.err"), errors="replace") as f:
                return f.read()[-1500:]
        except OSError:
            return ""

    def worker(self, p, w, W, N, slot, deadline):
        self.quiet(w)
        out = dict(done=0, rejected=0, checks=0, hashes=[], labels={}, samples=[])
        code = 0
        for i in range(w, N, W):
            if time.time() > deadline:
                break
            slot.q[1], slot.q[2], slot.q[3] = i, int(time.time() * 1000), 1
            c = Case(slot, self.scratch, seed=_mix(self.seed, p["name"], i))
            r, msg = run_case(p, c)
            out["checks"] += c.checks
            if r == "fail":
                slot.text(1, msg)
                slot.q[3] = 2
                code = 77
                break
            slot.q[3] = 0
            if r == "reject":
                out["rejected"] += 1
                continue
            out["done"] += 1
            for l in c.labels:
                out["labels"][l] = out["labels"].get(l, 0) + 1
            if c.is_nontrivial:
                out["hashes"].append(_mix(slot.tape()))
                if len(out["samples"]) < 2:
                    out["samples"].append("; ".join(c.notes)[:700])
        with open(os.path.join(self.scratch, f"w{w}.out"), "w") as f:
            json.dump(out, f)
        sys.stdout.flush()
        os._exit(code)

    def attempt(self, p, tape, slot):
        """Runs one tape in a child; (failed, message, tape as consumed)."""
        slot.q[0], slot.q[3] = 0, 1
        slot.text(1, "")
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            self.quiet("x")
            c = Case(slot, self.scratch, tape=tape)
            r, msg = run_case(p, c)
            slot.text(1, msg)
            os._exit(77 if r == "fail" else 0)
        st, hung = self.wait(pid, p["hang"])
        used = slot.tape()
        if hung:
            return True, f"no answer within {p['hang']} s (hang or livelock)", used
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
            return False, "", used
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
            return True, slot.text(1), used
        return True, self.describe(st) + ": " + self.err_tail("x"), used

    @staticmethod
    def describe(st):
        return f"killed by signal {os.WTERMSIG(st)}" if os.WIFSIGNALED(st) else f"exit status {os.WEXITSTATUS(st)}"

    @staticmethod
    def wait(pid, limit):
        t0 = time.time()
        while True:
            r, st = os.waitpid(pid, os.WNOHANG)
            if r:
                return st, False
            if time.time() - t0 > limit:
                Runner.kill(pid)
                return os.waitpid(pid, 0)[1], True
            time.sleep(0.002)

    @staticmethod
    def kill(pid):
        for f in (os.killpg, os.kill):
            try:
                f(pid, signal.SIGKILL)
            except OSError:
                pass

    def shrink(self, p, tape, msg, note, slot):
        end = time.time() + (90 if self.thorough else 40)
        tries = 0
        best = [tape, msg, note]

        def test(t):
            nonlocal tries
            if time.time() > end or tries > 500:
                return False
            tries += 1
            failed, m, used = self.attempt(p, t, slot)
            if failed and not m.startswith("no answer") and (len(used), used) < (len(best[0]), best[0]):
                best[:] = [used, m, slot.text(0)]
                return True
            return False
        improved = not msg.startswith("no answer")
        while improved and time.time() < end:
            improved = False
            n = max(1, len(best[0]) // 2)
            while n >= 1:
                i = 0
                while i < len(best[0]) and time.time() < end:
                    if test(best[0][:i] + best[0][i + n:]):
                        improved = True
                    else:
                        i += n
                n //= 2
            for i in range(len(best[0])):
                if i >= len(best[0]) or best[0][i] == 0:
                    continue
                for v in (0, best[0][i] // 2, best[0][i] - 1):
                    if i < len(best[0]) and v < best[0][i] and test(best[0][:i] + [v] + best[0][i + 1:]):
                        improved = True
                        break
        return best

    def run_prop(self, p, deadline):
        t0 = time.time()
        N = max(1, round((p["thorough"] if self.thorough else p["quick"]) * self.scale))
        W = min(self.jobs, p["workers"], N)
        slots = [Slot() for _ in range(W)]
        pids = {}
        sys.stdout.flush()
        for w in range(W):
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                self.worker(p, w, W, N, slots[w], deadline)
            pids[w] = pid
        failure = None
        while pids:
            for w, pid in list(pids.items()):
                r, st = os.waitpid(pid, os.WNOHANG)
                hung = False
                if not r:
                    s = slots[w].q
                    if s[3] == 1 and time.time() * 1000 - s[2] > p["hang"] * 1000:
                        hung = True
                        self.kill(pid)
                        st = os.waitpid(pid, 0)[1]
                    else:
                        continue
                del pids[w]
                self.kill_group(pid)
                if failure is None and (hung or not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0)):
                    if hung:
                        msg = f"no answer within {p['hang']} s (hang or livelock)"
                    elif os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
                        msg = slots[w].text(1)
                    else:
                        msg = self.describe(st) + ": " + self.err_tail(w)
                    failure = [slots[w].tape(), msg, slots[w].text(0)]
                    for q in pids.values():
                        self.kill(q)
            time.sleep(0.002)
        tot = dict(done=0, rejected=0, checks=0, hashes=set(), labels={}, samples=[])
        for w in range(W):
            f = os.path.join(self.scratch, f"w{w}.out")
            if os.path.exists(f):
                with open(f) as fh:
                    try:
                        o = json.load(fh)
                    except ValueError:
                        o = None
                os.unlink(f)
                if not o:
                    continue
                for k in ("done", "rejected", "checks"):
                    tot[k] += o[k]
                tot["hashes"] |= set(o["hashes"])
                for k, v in o["labels"].items():
                    tot["labels"][k] = tot["labels"].get(k, 0) + v
                tot["samples"] += o["samples"]
        verdict, msg, replay = "held", "", ""
        if failure:
            slot = slots[0]
            reproduced = False
            hang = failure[1].startswith("no answer")
            for _ in range(1 if hang else p["repro"]):
                bad, m, used = self.attempt(p, failure[0], slot)
                if bad:
                    reproduced = True
                    failure = [used, m, slot.text(0)]
                    break
            noise = "No space left" in failure[1] or "killed by signal 9" in failure[1] or hang
            if not reproduced and noise:
                verdict, msg = "unreproduced", failure[1]
                print(f"note: {p['name']} failed once and passed on replay: {msg}", file=sys.stderr)
            else:
                if reproduced:
                    failure = self.shrink(p, *failure, slot)
                verdict, msg = "violated", failure[1]
                os.makedirs(self.a.replay_dir or ".", exist_ok=True)
                replay = os.path.join(self.a.replay_dir or ".", f"{self.a.property}-{self.a.part}-{p['name']}-{self.seed}.replay")
                with open(replay, "w") as f:
                    f.write(f"property {self.a.property}\npart {self.a.part}\nprop {p['name']}\nreproduced "
                            f"{'yes' if reproduced else 'no'}\ntape {' '.join(map(str, failure[0]))}\n# case: {failure[2]!r}\n# failure: {msg!r}\n")
                print(f"{self.a.part}/{p['name']}: {msg}\n  case: {failure[2]}")
        return dict(name=p["name"], rule=p["rule"], planned=N, done=tot["done"], rejected=tot["rejected"], checks=tot["checks"],
                    distinct_nontrivial=len(tot["hashes"]), seconds=time.time() - t0, verdict=verdict, message=msg, replay=replay,
                    labels=tot["labels"], samples=tot["samples"][:3])

    @staticmethod
    def kill_group(pid):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass

    def main(self):
        try:
            if self.a.replay:
                return self.replay()
            deadline = time.time() + self.a.max_seconds
            res = [self.run_prop(p, deadline) for p in PROPS if not self.a.only or self.a.only in p["name"]]
            js = json.dumps(dict(part=self.a.part, props=res))
            if self.a.out:
                with open(self.a.out, "w") as f:
                    f.write(js)
            else:
                print(js)
            return 1 if any(r["verdict"] == "violated" for r in res) else 0
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def replay(self):
        d = {}
        with open(self.a.replay) as f:
            for line in f:
                k, _, v = line.rstrip("\n").partition(" ")
                d.setdefault(k, v)
        for p in PROPS:
            if p["name"] == d["prop"]:
                slot = Slot()
                for _ in range(p["repro"]):
                    bad, m, _ = self.attempt(p, [int(x) for x in d["tape"].split()], slot)
                    if bad:
                        print(f"{p['name']}: {m}\n  case: {slot.text(0)}\nVIOLATION property={self.a.property} replay={self.a.replay}")
                        return 1
                print(f"replay of {p['name']}: the property held")
                return 0
        print("no such property here", file=sys.stderr)
        return 2


def main():
    sys.exit(Runner().main())
