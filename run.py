#!/usr/bin/env python3
"""Builds and runs the checks of one property against /repo's working tree.

usage: run.py <property-id> [--tier quick|thorough] [--part NAME] [--only PROP]
       run.py --replay FILE
       run.py --setup           (compile every check once)
Exit status: 0 held, 1 violated (a VIOLATION line is printed), 2 the check itself could not be run.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
sys.path.insert(0, VERIF)
from checks import CHECKS, LIBS, VARIANTS  # noqa: E402

INCLUDES = [
    "-DALAYA_LASER_USE_LIBAIO=1", "-DALAYA_ENABLE_LASER=1", "-DFMT_SHARED", "-DSPDLOG_FMT_EXTERNAL",
    f"-I{VERIF}/harness", f"-I{VERIF}/shim", f"-I{REPO}/include",
    "-isystem", "/usr/include/concurrentqueue", "-isystem", "/usr/include/concurrentqueue/moodycamel",
    "-isystem", "/usr/include/eigen3",
]


def tree_hash(paths, exts=(".hpp", ".h", ".ipp", ".cpp", ".py", ".inl")):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, _, fs in os.walk(root):
                files += [os.path.join(d, f) for f in fs if f.endswith(exts)]
        for f in sorted(files):
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class BuildError(Exception):
    pass


def build_part(part, stamp):
    """Compiles a C++ part; returns the path of the binary."""
    variant = VARIANTS[part.get("variant", "rel")]
    flags = ["-std=gnu++20", "-fopenmp", "-w"] + variant + [f.format(REPO=REPO, VERIF=VERIF) for f in part.get("flags", [])] + INCLUDES
    srcs = [os.path.join(VERIF, s) for s in part["sources"]]
    key = hashlib.sha256((stamp + " ".join(flags) + " ".join(srcs)).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, f"{part['name']}-{key}")
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with tempfile.TemporaryDirectory(dir=BUILD) as tmp:
        objs = []
        with cf.ThreadPoolExecutor(8) as ex:
            jobs = []
            for i, s in enumerate(srcs):
                o = os.path.join(tmp, f"{i}.o")
                objs.append(o)
                cmd = ["g++", *flags, "-c", s, "-o", o]
                jobs.append(ex.submit(subprocess.run, cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
            for j in jobs:
                r = j.result()
                if r.returncode != 0:
                    raise BuildError(f"{part['name']}: {' '.join(r.args)}\n{r.stdout[-6000:]}")
        link = ["g++", *[f for f in flags if f.startswith(("-fsan", "-fopenmp", "-O", "-g", "-static-lib"))], *objs,
                "-o", os.path.join(tmp, "bin"), *LIBS, *part.get("libs", [])]
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(f"{part['name']}: {' '.join(link)}\n{r.stdout[-6000:]}")
        for f in os.listdir(BUILD):  # drop builds of older trees
            if f.startswith(part["name"] + "-"):
                os.unlink(os.path.join(BUILD, f))
        os.replace(os.path.join(tmp, "bin"), out)
    return out


def stamp_of(part):
    paths = [os.path.join(REPO, "include"), os.path.join(VERIF, "harness"), os.path.join(VERIF, "shim")]
    paths += [os.path.join(REPO, p) for p in part.get("repo_paths", [])]
    return tree_hash(paths)


def scratch_base():
    # tmpfs when there is one with room, so that fsync does not dominate; never a system path
    for d in ("/dev/shm", os.environ.get("TMPDIR", "/tmp"), "/tmp"):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 2 << 30 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return "/tmp"


def env_for(part, tier, seed):
    env = dict(os.environ)
    env["VERIF_SEED"] = str(seed)
    env["VERIF_TIER"] = tier
    env["VERIF_REPO"] = REPO
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                           "detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=8192")
    env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:exitcode=98"
    env["TSAN_OPTIONS"] = "exitcode=97:halt_on_error=1:report_thread_leaks=0"
    env["OMP_NUM_THREADS"] = str(part.get("omp", 2))
    env["OMP_WAIT_POLICY"] = "passive"
    env["PBT_SCRATCH"] = "/tmp" if part.get("disk") else scratch_base()
    env.update(part.get("env", {}))
    return env


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def part_command(part, binary):
    if part.get("kind") == "python":
        return [part.get("python", "python3-vt"), os.path.join(VERIF, part["script"])]
    return [binary]


def prepare(part):
    if part.get("kind") == "python":
        if part.get("builder"):
            import importlib
            mod = importlib.import_module(part["builder"])
            return mod.build(REPO, VERIF, BUILD)
        return None
    return build_part(part, stamp_of(part))


def run_part(pid, part, prepared, tier, seed, only=None, replay=None):
    env = env_for(part, tier, seed)
    if part.get("kind") == "python" and prepared:
        env["VERIF_STAGED"] = prepared
        env["PYTHONDONTWRITEBYTECODE"] = "1"
    out = os.path.join(tempfile.mkdtemp(prefix="verif_out_"), "out.json")
    cmd = part_command(part, prepared) + ["--property", pid, "--part", part["name"], "--out", out,
                                          "--replay-dir", REPLAYS]
    if only:
        cmd += ["--only", only]
    if replay:
        cmd += ["--replay", replay]
    if tier == "thorough":
        cmd += ["--max-seconds", str(part.get("max_seconds_thorough", 780 // len(CHECKS[pid]["parts"])))]
    else:
        cmd += ["--max-seconds", str(part.get("max_seconds", 240))]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, errors="replace")
    res = None
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
    shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    return r, res


def run_check(pid, tier, seed, only_part=None, only=None):
    t0 = time.time()
    spec = CHECKS[pid]
    parts = [p for p in spec["parts"] if not only_part or p["name"] == only_part]
    prepared = {}
    try:
        with cf.ThreadPoolExecutor(max(1, len(parts))) as ex:
            futs = {p["name"]: ex.submit(prepare, p) for p in parts}
            for n, f in futs.items():
                prepared[n] = f.result()
    except (BuildError, RuntimeError) as e:
        log("BUILD FAILED", e)
        return 2
    build_s = time.time() - t0
    rc = 0
    known = {(k["property"], k["prop"]): k for k in known_findings()}
    props, errors = [], []
    violations = 0
    for p in parts:
        r, res = run_part(pid, p, prepared[p["name"]], tier, seed, only)
        if res is None or r.returncode not in (0, 1):
            log(f"{p['name']}: no result (status {r.returncode})\n{r.stdout[-3000:]}\n{r.stderr[-3000:]}")
            errors.append(p["name"])
            continue
        if r.stderr.strip():
            log(r.stderr[-2000:])
        # known findings carry their own dedicated reproduction, listed in the findings file
        for pr in res["props"]:
            pr["part"] = p["name"]
            if pr["verdict"] == "violated":
                k = known.get((pid, pr["name"]))
                if k and re.search(k["match"], pr["message"]):
                    print(f"KNOWN-FINDING: property={pid} {k['what']}", flush=True)
                    pr["verdict"] = "known finding"
                    continue
                violations += 1
                rc = 1
                print(f"{p['name']}/{pr['name']}: {pr['message'][:1500]}", flush=True)
                print(f"VIOLATION property={pid} replay={pr['replay']}", flush=True)
            props.append(pr)
    if errors and rc == 0:
        rc = 2
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(x["done"] for x in props),
            "distinct_nontrivial": sum(x["distinct_nontrivial"] for x in props),
            "rule": " | ".join(f"{x['name']}: {x['rule']}" for x in props),
            "samples": [f"{x['name']}: {s}" for x in props for s in x["samples"][:1]][:24] or ["(none)"],
            "rejected": sum(x["rejected"] for x in props),
            "assertions_evaluated": sum(x["checks"] for x in props),
            "per_generator": [
                {k: x[k] for k in ("part", "name", "planned", "done", "rejected", "distinct_nontrivial", "checks",
                                   "seconds", "verdict", "labels")} for x in props],
            "build_seconds": round(build_s, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    if not only_part and not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for x in props:
        log(f"  {x['part']}/{x['name']}: {x['verdict']} {x['done']}/{x['planned']} cases, "
            f"{x['distinct_nontrivial']} nontrivial, {x['rejected']} rejected, {x['seconds']:.1f}s {x['labels']}")
    log(f"{pid} {tier} seed={seed}: rc={rc} build {build_s:.1f}s total {time.time() - t0:.1f}s")
    return rc


def main():
    a = sys.argv[1:]

    def opt(name, default=None):
        if name in a:
            i = a.index(name)
            v = a[i + 1]
            del a[i:i + 2]
            return v
        return default
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    only_part, only, replay = opt("--part"), opt("--only"), opt("--replay")
    if "--setup" in a:
        parts = {p["name"]: p for c in CHECKS.values() for p in c["parts"]}
        bad = 0
        with cf.ThreadPoolExecutor(4) as ex:
            for n, f in [(n, ex.submit(prepare, p)) for n, p in parts.items()]:
                try:
                    f.result()
                    log("built", n)
                except BuildError as e:
                    log("BUILD FAILED", e)
                    bad = 2
        return bad
    if replay:
        with open(replay) as f:
            head = dict(line.rstrip("\n").split(" ", 1) for line in f if " " in line and not line.startswith("#"))
        pid, pname = head["property"], head["part"]
        part = [p for p in CHECKS[pid]["parts"] if p["name"] == pname][0]
        r, _ = run_part(pid, part, prepare(part), tier, seed, replay=os.path.abspath(replay))
        print(r.stdout, end="")
        log(r.stderr[-3000:])
        return r.returncode
    return run_check(a[0], tier, seed, only_part, only)


if __name__ == "__main__":
    sys.exit(main())
