"""Compiles the Python extension of the checked tree and lays it beside a copy of the package, so that harnesses can
import the package as a user does. The dispatch table is compiled in slices, in parallel."""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import re
import shutil
import subprocess

FLAGS = ("-O1 -DNDEBUG -std=gnu++20 -fopenmp -mavx2 -mfma -fPIC -fvisibility=hidden -w -DALAYA_LASER_USE_LIBAIO=1 "
         "-DALAYA_ENABLE_LASER=1 -DFMT_SHARED -DSPDLOG_FMT_EXTERNAL").split()
LIBS = "-lrocksdb -lpthread -lfmt -lspdlog -luring -laio -lgomp".split()
SLICES = 7

# The installed pybind11 predates numpy 2: its picture of a dtype object has to be brought up to date.
OLD = re.compile(r"struct PyArrayDescr_Proxy \{.*?\n\};", re.S)
NEW = """struct PyArrayDescr_Proxy {
    PyObject_HEAD
    PyObject *typeobj;
    char kind;
    char type;
    char byteorder;
    char _former_flags;
    int type_num;
    unsigned long long flags;
    ssize_t elsize;
    ssize_t alignment;
    PyObject *metadata;
    ssize_t hash;
    void *reserved_null[2];
};"""


def patched_numpy_header():
    s = open("/usr/include/pybind11/numpy.h").read()
    s, n = OLD.subn(NEW, s)
    assert n == 1, "pybind11/numpy.h does not look as expected"
    return s.replace("return detail::array_descriptor_proxy(m_ptr)->names != nullptr;", "return false;")


def slices(table):
    """Splits the generated dispatch function; None when it does not have the shape expected of it."""
    m = re.search(r"auto IndexFactory::create\(const IndexParams &params\) -> std::unique_ptr<BasePyIndex> \{\n", table)
    if not m:
        return None
    parts = re.split(r"(?m)^  // .* / .* / .* / .*\n", table[m.end():])
    tail = parts[-1].rfind("  throw std::runtime_error(")
    if len(parts) < 3 or tail < 0 or parts[0].strip():
        return None
    blocks = parts[1:-1] + [parts[-1][:tail]]
    last = parts[-1][tail:]
    out = []
    for k in range(SLICES):
        body = "".join(blocks[k * len(blocks) // SLICES:(k + 1) * len(blocks) // SLICES])  # neighbours share most templates
        out.append('#include "index.hpp"\nnamespace alaya {\nauto create_slice_%d(const IndexParams &params) -> '
                   "std::unique_ptr<BasePyIndex> {\n%s  return nullptr;\n}\n}\n" % (k, body))
    decl = "".join("auto create_slice_%d(const IndexParams &params) -> std::unique_ptr<BasePyIndex>;\n" % k for k in range(SLICES))
    calls = "".join("  if (auto made = create_slice_%d(params)) return made;\n" % k for k in range(SLICES))
    out.append(table[:m.start()] + decl + m.group(0) + calls + last)
    return out


def build(repo, verif, build_dir):
    """Builds once, whoever asks: several checks use the extension, some at the same time."""
    os.makedirs(build_dir, exist_ok=True)
    with open(os.path.join(build_dir, ".pyext.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_locked(repo, verif, build_dir)


def build_locked(repo, verif, build_dir):
    h = hashlib.sha256(open(__file__, "rb").read())
    for f in ("crash.hpp", "crash_preload.cpp"):
        h.update(open(f"{verif}/harness/{f}", "rb").read())
    for root in (repo + "/include", repo + "/python/include", repo + "/python/src", verif + "/shim"):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".cpp", ".inl", ".ipp", ".py")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + open(p, "rb").read())
    stage = os.path.join(build_dir, "pyext-" + h.hexdigest()[:16])
    if os.path.exists(os.path.join(stage, "ok")):
        return os.path.join(stage, "pkg")
    for old in os.listdir(build_dir) if os.path.isdir(build_dir) else []:
        if old.startswith("pyext-") and len([x for x in os.listdir(build_dir) if x.startswith("pyext-")]) > 2:
            shutil.rmtree(os.path.join(build_dir, old), ignore_errors=True)
    tmp = f"{stage}.{os.getpid()}"
    shutil.copytree("/usr/include/pybind11", os.path.join(tmp, "inc/pybind11"))
    with open(os.path.join(tmp, "inc/pybind11/numpy.h"), "w") as f:
        f.write(patched_numpy_header())
    sources = [f"{repo}/python/src/pybind.cpp", f"{repo}/python/src/diskann_bindings.cpp"]
    cut = slices(open(f"{repo}/python/include/dispatch_generated.hpp").read())
    if cut is None:
        sources.append(f"{repo}/python/src/index_factory.cpp")
    else:
        for i, text in enumerate(cut):
            p = os.path.join(tmp, f"dispatch_{i}.cpp")
            with open(p, "w") as f:
                f.write(text)
            sources.append(p)
    inc = [f"-I{tmp}/inc", f"-I{verif}/shim", f"-I{repo}/python/include", f"-I{repo}/include", "-I/usr/include/python3.12",
           "-isystem", "/usr/include/concurrentqueue", "-isystem", "/usr/include/concurrentqueue/moodycamel",
           "-isystem", "/usr/include/eigen3"]

    def compile_one(src):
        obj = os.path.join(tmp, os.path.basename(src) + ".o")
        r = subprocess.run(["g++", *FLAGS, *inc, "-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return obj, r

    preload = subprocess.Popen(["g++", "-std=gnu++20", "-O1", "-w", "-shared", "-fPIC", f"{verif}/harness/crash_preload.cpp", "-o",
                                os.path.join(tmp, "crash_preload.so"), "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        done = list(ex.map(compile_one, sources))
    said = preload.communicate()[0]
    if preload.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise RuntimeError("the fault injection library does not compile:\n" + said[-3000:])
    for obj, r in done:
        if r.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            raise RuntimeError("the extension does not compile:\n" + r.stdout[-3000:])
    pkg = os.path.join(tmp, "pkg")
    shutil.copytree(f"{repo}/python/src/alayalite", os.path.join(pkg, "alayalite"), ignore=shutil.ignore_patterns("__pycache__", "*.so"))
    so = os.path.join(pkg, "alayalite", "_alayalitepy.cpython-312-x86_64-linux-gnu.so")
    r = subprocess.run(["g++", "-shared", *[o for o, _ in done], "-o", so, *LIBS], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise RuntimeError("the extension does not link:\n" + r.stdout[-3000:])
    for obj, _ in done:
        os.unlink(obj)
    open(os.path.join(tmp, "ok"), "w").close()
    try:
        os.rename(tmp, stage)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return os.path.join(stage, "pkg")
