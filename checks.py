"""The checks of each property: which harnesses decide it, how they are built, and what they assume."""

# The optimisation flags of the project's own release build come first; the sanitizer builds use the same language
# dialect and instruction sets.
VARIANTS = {
    "rel": ["-O2", "-DNDEBUG", "-mavx2", "-mfma", "-Ofast", "-fno-unroll-loops"],
    "fast": ["-O1", "-DNDEBUG", "-mavx2", "-mfma"],
    "asan": ["-O1", "-g1", "-DNDEBUG", "-mavx2", "-mfma", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-DNDEBUG", "-mavx2", "-mfma", "-fsanitize=thread"],
}
LIBS = ["-lpthread", "-lfmt", "-lspdlog", "-lrocksdb", "-luring", "-laio", "-lgomp"]

LASER = ["-DALAYA_LASER_USE_LIBAIO=1", "-DALAYA_ENABLE_LASER=1", "-isystem", "/usr/include/eigen3"]

CHECKS = {}


def check(pid, parts, assumptions=(), level="exploration"):
    CHECKS[pid] = {"parts": parts, "assumptions": list(assumptions), "level": level}


def cpp(name, sources, variant="rel", **kw):
    return {"name": name, "sources": sources, "variant": variant, **kw}


def py(name, script, **kw):
    return {"name": name, "kind": "python", "script": script, **kw}


check("P01", [cpp("simd", ["harness/simd.cpp"], "rel", env={"PBT_SCALE": "30"}), cpp("simd_asan", ["harness/simd.cpp"], "asan", env={"PBT_SCALE": "8"})],
      ["the CPU running the check offers AVX2, FMA and AVX-512F, so that every kernel can run"])
check("P02", [cpp("quant", ["harness/quant.cpp"], "fast", env={"PBT_SCALE": "5"}), cpp("quant_asan", ["harness/quant.cpp"], "asan", env={"PBT_SCALE": "0.1"})],
      ["distances are compared within single-precision rounding of the magnitudes involved"])
check("P03", [cpp("rabitq", ["harness/rabitq.cpp"], "rel", env={"PBT_SCALE": "5"})],
      ["random rotations are drawn by the code itself, so a case fixes the vectors but not the rotation"])
check("P09", [cpp("store", ["harness/store.cpp"], "fast", env={"PBT_SCALE": "3"}), cpp("store_asan", ["harness/store.cpp"], "asan", env={"PBT_SCALE": "0.1"})],
      ["a killed process is modelled by copying the store's files while it is open: RocksDB's own durability is trusted"])
check("P08", [cpp("filter", ["harness/filter.cpp"], "fast", env={"PBT_SCALE": "3"}), cpp("filter_asan", ["harness/filter.cpp"], "asan", env={"PBT_SCALE": "0.1"})],
      ["a NOT filter is generated with its single documented sub-expression", "NaN metadata values are not generated"])
check("P04", [cpp("space", ["harness/space.cpp"], "fast", env={"PBT_SCALE": "5"}), cpp("space_asan", ["harness/space.cpp"], "asan", env={"PBT_SCALE": "0.1"})],
      ["ids passed to remove have been issued by the space", "set_metric_function() is called after load, as every caller in the library does"])
check("P21", [cpp("pool", ["harness/pool.cpp"], "fast", env={"PBT_SCALE": "30"}), cpp("pool_asan", ["harness/pool.cpp"], "asan", env={"PBT_SCALE": "3"})],
      ["ids stay below 2^31 (the pools use the top bit)", "pool capacities are at least 1, as every caller ensures", "a hierarchical bitset is sized in whole blocks"])
check("P10", [cpp("wal", ["harness/wal.cpp"], "fast", env={"PBT_SCALE": "12"}), cpp("wal_asan", ["harness/wal.cpp"], "asan", env={"PBT_SCALE": "0.5"})],
      ["damage is a cut at any byte, overwritten bytes that break a frame's framing, or unrelated bytes after the intact part: the format has no checksum, so altered payload bytes inside an intact frame are not detectable",
       "power loss keeps what was fsynced (a synced new file keeps its directory entry, as on journaling file systems)"])
check("P12", [cpp("disk", ["harness/disk.cpp"], "fast", env={"PBT_SCALE": "30"}), cpp("disk_asan", ["harness/disk.cpp"], "asan", env={"PBT_SCALE": "3"})],
      ["answers of graph segments are approximate: their hits must be valid, ordered and correctly scored, not complete"])
check("P13", [cpp("diskcrash", ["harness/diskcrash.cpp"], "fast", env={"PBT_SCALE": "10"})],
      ["power loss keeps what was fsynced (a synced new file keeps its directory entry, as on journaling file systems)",
       "an interrupted creation may leave a directory that refuses to open and has to be removed by hand, as documented"])
check("P14", [cpp("damage", ["harness/damage.cpp"], "asan", env={"PBT_SCALE": "5"})],
      ["vector and label bytes carry no checksum: altered ones are read back as they are, and must only be handled safely"])
check("P17", [cpp("parts", ["harness/parts.cpp"], "fast", env={"PBT_SCALE": "8"}), cpp("parts_asan", ["harness/parts.cpp"], "asan", env={"PBT_SCALE": "1"})],
      ["a file with bytes appended after its last field may be accepted where it has no length field", "slots are freed once and published once per allocation"])
check("P15", [cpp("vamana", ["harness/vamana.cpp"], "fast", env={"PBT_SCALE": "8", "OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"}),
              cpp("vamana_asan", ["harness/vamana.cpp"], "asan", env={"PBT_SCALE": "1", "OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"})],
      ["vectors are finite; exact comparisons use integer coordinates, whose distances are exact in single precision"])
check("P16", [cpp("diskann", ["harness/diskann.cpp"], "fast", env={"PBT_SCALE": "1.3"}), cpp("diskann_asan", ["harness/diskann.cpp"], "asan", env={"PBT_SCALE": "0.2"})],
      ["an index reopens after flush(), the documented durability point: pages written back without one are not claimed",
       "search widths stay within the scratch size the index was opened with, as documented"])
check("P20", [cpp("conc", ["harness/conc.cpp"], "fast", env={"PBT_SCALE": "4"}), cpp("conc_tsan", ["harness/conc.cpp"], "tsan", env={"PBT_SCALE": "1"})],
      ["the thread pool is not waited for while its counter is being reset", "a lock is upgraded by its only reader",
       "scheduled coroutines suspend only to yield: a worker resumes the tasks it holds in turn"])
check("P18", [cpp("io", ["harness/io.cpp"], "fast", env={"PBT_SCALE": "10"}), cpp("io_pool", ["harness/io.cpp"], "fast", flags=["-DPBT_READER_POOL=1"], env={"PBT_SCALE": "20"}),
              cpp("io_asan", ["harness/io.cpp"], "asan", env={"PBT_SCALE": "3"})],
      ["a submission the kernel refuses outright is not modelled"])
check("P19", [cpp("laser", ["harness/laser.cpp"], "fast", flags=LASER), cpp("laser_asan", ["harness/laser.cpp"], "asan", flags=LASER, env={"PBT_SCALE": "0.2"})],
      ["quantised distances are approximate: which vectors an ordinary search width finds is judged in aggregate"])
check("P24", [cpp("utils", ["harness/utils.cpp"], "fast", env={"PBT_SCALE": "20"}), cpp("utils_asan", ["harness/utils.cpp"], "asan", env={"PBT_SCALE": "2"}),
              py("py_utils", "harness/py_utils.py")],
      ["vectors are non-zero where a norm divides", "rounding helpers are given arguments whose result the type can hold", "a data set's files agree with each other"])
check("P23", [py("py_laser", "harness/py_laser.py")],
      ["scikit-learn, faiss and the native builders are stand-ins: exact PCA, exact search, and builders whose output is a digest of their inputs",
       "one data set per output prefix: files are matched by shape and seed, as documented, so other vectors of the same shape are not told apart"])
check("P25", [py("py_chunkers", "harness/py_chunkers.py")],
      ["the optional text splitter and sentence transformer packages are not installed: stand-ins take their place"])
check("P05", [cpp("graph_search", ["harness/graph_search.cpp"], "fast", env={"PBT_SCALE": "8", "OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"}),
              cpp("graph_search_asan", ["harness/graph_search.cpp"], "asan", env={"PBT_SCALE": "0.5", "OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"})],
      ["graph search is approximate: exactness is claimed among the vectors its graph can reach, when the search width covers the collection",
       "on plain random data at least nine in ten of the true neighbours are found with a width of 100"])
check("P06", [cpp("graph_update", ["harness/graph_update.cpp"], "fast", env={"PBT_SCALE": "20", "OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"}),
              cpp("graph_update_asan", ["harness/graph_update.cpp"], "asan", env={"PBT_SCALE": "0.5", "OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"})],
      ["every live vector must be found while the neighbour lists have room for a link to every other slot; beyond that, on random data, 95% of the live vectors must find themselves (see the known finding)",
       "ids passed to remove have been issued by the index"])
HYBRID = {"flags": ["-I{VERIF}/harness/stub_pybind", "-I{REPO}/python/include"], "repo_paths": ["python/include"]}
check("P07", [cpp("hybrid", ["harness/hybrid.cpp"], "fast", env={"PBT_SCALE": "15", "OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"}, **HYBRID),
              cpp("hybrid_asan", ["harness/hybrid.cpp"], "asan", env={"PBT_SCALE": "1", "OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"},
                  **{**HYBRID, "flags": HYBRID["flags"] + ["-DPBT_SMALL"]})],
      ["the search is exact when its width covers the collection and every live row can be reached; otherwise valid, ordered, and complete in number unless the iterative strategy is asked for",
       "RaBitQ answers and the partitioned view's are approximate: valid, ordered, complete in number, and nine in ten of the best matches on random data at full width",
       "NaN metadata values are not generated"])
check("P11", [py("py_recover", "harness/py_recover.py", builder="harness.py_ext")],
      ["a killed process keeps what it had written (power loss is covered for the log itself by P10)",
       "calls fail outside RocksDB's own database files: RocksDB 8.9 itself hangs or aborts there",
       "one session at a time", "an interrupted first insert may leave a directory behind that holds no collection"])
check("P22", [py("py_collection", "harness/py_collection.py", builder="harness.py_ext")],
      ["metadata values are strings, integers, floats or booleans: others are dropped without an error, as the storage has no type for them",
       "one client at a time has a directory open", "answers of searches over updated or quantized collections are approximate: valid, ordered and correctly scored, not complete"])
