"""One entry per claimed property: which harnesses are built, how they are run, what they must at least have seen."""

CHECKS = {}
LEVELS = {}
# several processes share the cores: idle OpenMP workers must not spin
OMP2 = {"OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"}


def b(src, variant="plain", **kw):
    return dict(src=src, variant=variant, **kw)


def j(name, bin, mode=None, **kw):
    d = dict(name=name, bin=bin, **kw)
    if mode:
        d["mode"] = mode
    return d


def T(tier, seconds):
    """time limit of a job in the quick tier (a job that hangs twice is a violation); generous when thorough"""
    return dict(timeout=seconds if tier == "quick" else 3600)


CHECKS["R01"] = dict(
    builds={"p": b("wal.cpp"), "a": b("wal.cpp", "asan"), "t": b("wal.cpp", "tsan")},
    jobs=[j("histories", "p", "hist", shards=3), j("faults", "p", "fault", shards=3),
          j("hostile-bytes", "a", "hostile", shards=2), j("histories-asan", "a", "conc"),
          j("concurrent", "t", "conc", shards=2)],
    rule="a log history counts when it contains a torn or garbage tail, a cut point, a fault point or an observed commit interleaving "
         "that no other evaluation had (hash of its events)",
    assumptions=["names of files survive power loss; unsynced contents do not"],
    min={"evaluations": 500, "distinct": 300, "cut_points": 500, "deaths": 50, "concurrent_replays": 5},
)
LEVELS["R01"] = "fault_enumeration"

CHECKS["R02"] = dict(
    builds={"p": b("recovery.cpp"), "a": b("recovery.cpp", "asan")},
    jobs=[j("histories", "a", "hist", shards=2), j("kill", "p", "kill", shards=4), j("torn", "p", "torn", shards=4),
          j("power", "p", "power", shards=4), j("fail", "p", "fail", shards=4)],
    rule="a run counts when it contains a checkpoint or a fault point: hash of (fault mode, system call index, script of operations and "
         "checkpoints, clock behaviour)",
    assumptions=["created and removed names survive power loss; renames whose directory was not synced and unsynced contents do not",
                 "checkpoint components are synced by the client before publication"],
    min={"evaluations": 1000, "distinct": 500, "deaths": 300, "checkpoints": 100, "deaths_in_recovery": 10},
)
LEVELS["R02"] = "fault_enumeration"

CHECKS["S01"] = dict(
    builds={"a": b("scalar.cpp", "asan"), "t": b("scalar.cpp", "tsan")},
    jobs=[j("store", "a", "store", shards=6), j("concurrent", "t", "conc", shards=2)],
    rule="a history counts when it reopens the store and contains replaced or refused writes (hash of its operations), or is a concurrent "
         "run with an interleaving of its own",
    min={"evaluations": 100, "distinct": 60, "full_comparisons": 300, "index_comparisons": 100, "checkpoints": 20, "process_deaths": 20},
)
CHECKS["S02"] = dict(
    builds={"a": b("scalar.cpp", "asan"), "o": b("scalar.cpp", "prod")},
    jobs=[j("filters", "a", "filter", shards=6), j("filters-as-shipped", "o", "filter", shards=2)],
    rule="a filter counts when it selects some but not all live records (hash of filter, selection and store)",
    min={"evaluations": 4000, "distinct": 1500, "index_path": 500, "scan_path": 1000},
)
CHECKS["S03"] = dict(
    builds={"a": b("scalar.cpp", "asan")},
    jobs=[j("encodings", "a", "enc", shards=4)],
    rule="a value counts when it is a record with metadata or a pair of numbers not seen before (hash of its bytes)",
    min={"evaluations": 20000, "distinct": 10000, "truncations": 10000, "mutations": 10000},
)

AVX512 = ["-mavx512f", "-mavx512bw", "-mavx512dq", "-mavx512vl"]
CHECKS["V01"] = dict(
    builds={"o": b("simd.cpp", "prod"), "w": b("simd.cpp", "prod", flags=AVX512), "a": b("simd.cpp", "asan")},
    jobs=[j("as-shipped", "o", shards=2), j("avx512-build", "w", shards=2), j("asan", "a", shards=2),
          j("force-scalar", "o", env={"ALAYA_FORCE_SCALAR_L2": "1"}),
          j("diskann-compat", "o", env={"ALAYA_FORCE_DISKANN_COMPAT_L2": "1"}),
          j("policy-avx512", "o", env={"ALAYA_SIMD_DISTANCE_POLICY": "avx512"})],
    rule="a kernel evaluation counts when its vectors are not all zero (hash of kernel, dimension, alignment and data)",
    assumptions=["vectors are finite and free of denormals (the project is built with -Ofast)"],
    min={"evaluations": 100000, "distinct": 5000, "rotations": 500, "tables": 200, "avx2": 1000},
)
CHECKS["V02"] = dict(
    builds={"o": b("spaces.cpp", "prod"), "a": b("spaces.cpp", "asan")},
    jobs=[j("histories", "o", "raw", shards=2), j("histories-asan", "a", "raw", shards=3), j("scalar-data", "a", "rawscalar", shards=3)],
    rule="a history counts when it removes, refuses or reloads something (hash of its operations)",
    min={"evaluations": 1000, "distinct": 150, "vectors_compared": 5000, "refusals": 50},
)
CHECKS["V03"] = dict(
    builds={"o": b("spaces.cpp", "prod"), "a": b("spaces.cpp", "asan")},
    jobs=[j("quantizers", "o", "quant", shards=2), j("quantizers-asan", "a", "quant", shards=3),
          j("rabitq", "o", "rabitq", shards=1), j("rabitq-asan", "a", "rabitq", shards=2)],
    rule="a data set counts when its components differ (hash of shape, metric and data)",
    min={"evaluations": 500, "distinct": 100, "wide_vectors": 5},
)

CHECKS["X02"] = dict(
    builds={"o": b("bookkeep.cpp", "prod"), "a": b("bookkeep.cpp", "asan"), "t": b("bookkeep.cpp", "tsan")},
    jobs=[j("as-shipped", "o"), j("asan", "a", shards=5), j("shared-pools", "t", "conc"), j("shared-pools-asan", "a", "conc")],
    rule="a pool history counts when it overflows and contains ties, a set history when it sets, clears and queries (hash of its operations)",
    min={"evaluations": 200000, "distinct": 5000, "pops": 50000, "wraparounds": 40},
)

CHECKS["X01"] = dict(
    builds={"o": b("exec.cpp", "prod"), "a": b("exec.cpp", "asan"), "t": b("exec.cpp", "tsan")},
    jobs=lambda tier: [j("as-shipped", "o", shards=2, **T(tier, 90)), j("asan", "a", shards=2, **T(tier, 90)),
                       j("tsan", "t", shards=3, **T(tier, 120))],
    rule="a run counts by the order in which its tasks were observed to execute, or its seed where order is not recorded",
    assumptions=["the coroutine runtime (libcoro) is a stand-in with the same interface; only the project's own executors are judged",
                 "the lock-free queue of the moodycamel library is trusted to synchronise (its fences are invisible to the race detector)"],
    min={"evaluations": 500, "distinct": 300, "tasks": 10000, "waits": 50, "file_lock_turns": 300},
)

CHECKS["G01"] = dict(
    builds={"o": b("graph.cpp", "prod"), "a": b("graph.cpp", "asan"), "t": b("graph.cpp", "tsan"),
            "w": b("graph.cpp", "asan", flags=["-DVF_ID=uint64_t"])},
    jobs=[j("as-shipped", "o", "static", shards=3), j("asan", "a", "static", shards=4), j("ids64", "w", "static", shards=2), j("readers", "t", "conc", tsan="detect_deadlocks=0")],
    rule="an index counts by its shape (builder, encoding, metric, size) and the answers it gave (hash)",
    assumptions=["recall is a statistical claim: its floor is judged over all queries of one kind of index"],
    min={"evaluations": 120, "distinct": 80, "answers": 1200, "exhaustive_answers": 300, "batch_answers": 1500, "reloads": 80,
         "concurrent_answers": 300},
)

CHECKS["G02"] = dict(
    builds={"o": b("update.cpp", "prod"), "a": b("update.cpp", "asan"), "w": b("update.cpp", "asan", flags=["-DVF_ID=uint64_t"])},
    jobs=[j("as-shipped", "o", shards=2), j("asan", "a", shards=4), j("ids64", "w", shards=2)],
    rule="a history counts when it inserts and removes (hash of its operations and answers)",
    assumptions=["recall and reachability after growth are statistical claims: floors over all searches of a history"],
    min={"evaluations": 100, "distinct": 40},
)

CHECKS["G03"] = dict(
    builds={"o": b("filtered.cpp", "prod"), "a": b("filtered.cpp", "asan"), "t": b("filtered.cpp", "tsan"),
            "w": b("filtered.cpp", "asan", flags=["-DVF_ID=uint64_t"])},
    jobs=[j("as-shipped", "o", shards=3), j("asan", "a", shards=3), j("ids64", "w", shards=2), j("threads", "t", "conc", tsan="detect_deadlocks=0")],
    rule="an index with its metadata counts by the numbers of matches and the answers it gave (hash)",
    assumptions=["recall is a statistical claim: its floor is judged over all searches of one strategy"],
    min={"evaluations": 120, "distinct": 60, "answers": 5000, "brute_answers": 1000, "iterative_answers": 1000, "prefilter_answers": 2000,
         "empty_answers": 500, "batch_answers": 5000, "refusals": 200},
)

CHECKS["D01"] = dict(
    builds={"o": b("disk.cpp", "prod"), "a": b("disk.cpp", "asan")},
    jobs=[j("histories", "o", "model", shards=4), j("histories-asan", "a", "model", shards=4)],
    rule="a search counts when it has rows to rank (hash of collection shape, history, query, k and effort)",
    assumptions=["recall of Vamana segments is judged on the average of many searches; their hits are otherwise judged exactly"],
    min={"evaluations": 8000, "distinct": 5000, "flushes": 1000, "reopens": 800, "refused_flushes": 500, "many_segment_searches": 3000,
         "batch_queries": 3000, "ties": 5000, "determined_answers": 1000},
)
LEVELS["D01"] = "exploration"
CHECKS["D02"] = dict(
    builds={"o": b("disk.cpp", "prod")},
    jobs=[j("kill", "o", "kill"), j("torn", "o", "torn"), j("power", "o", "power"), j("power-and-names", "o", "names"),
          j("failing-calls", "o", "fail", shards=3)],
    rule="a run counts when it has a fault point: hash of (fault mode, system call index, configuration and data)",
    assumptions=["a fsynced file keeps its contents, a fsynced directory its names", "writes are cut in the middle, not at every byte"],
    min={"evaluations": 2000, "distinct": 1500, "deaths": 1000, "reported_failures": 500, "interrupted_creations": 100,
         "with_the_last": 20, "without_the_last": 800},
)
LEVELS["D02"] = "fault_enumeration"
CHECKS["D03"] = dict(
    builds={"o": b("disk.cpp", "prod"), "a": b("disk.cpp", "asan"), "t": b("disk.cpp", "tsan")},
    jobs=[j("lock", "o", "lock", shards=3), j("readers-asan", "a", "readers"), j("readers-tsan", "t", "readers", shards=2)],
    rule="a run counts when its outcome differs: hash of (contenders, opens and refusals), or of the shared collection searched",
    min={"evaluations": 60, "distinct": 50, "lock_opens": 300, "lock_refusals": 300, "shared_searches": 4000},
)
LEVELS["D03"] = "exploration"

CHECKS["N01"] = dict(
    builds={"o": b("diskann.cpp", "prod"), "a": b("diskann.cpp", "asan"), "t": b("diskann.cpp", "tsan")},
    jobs=[j("as-shipped", "o", "static", shards=3), j("asan", "a", salt=1000, mode="static", shards=4),
          j("no-uring", "a", salt=3000, mode="static", shards=3, env={"VF_NO_URING": "1"}), j("tsan", "t", salt=2000, mode="static", shards=4)],
    rule="an index counts by its shape and the answers it gave (hash)",
    assumptions=["recall of short search lists and reachability of a freshly built graph are statistical claims: floors over all searches",
                 "where the kernel offers no io_uring the pipelined search is not exercised"],
    min={"evaluations": 120, "distinct": 100, "answers": 15000, "exhaustive_answers": 5000, "batches": 8000, "loads": 480, "refusals": 1500, "fault_answers": 400, "fault_errors": 400, "fault_recoveries": 1000, "searches_with_stats": 5000},
)
CHECKS["N02"] = dict(
    builds={"o": b("diskann.cpp", "prod"), "a": b("diskann.cpp", "asan"), "t": b("diskann.cpp", "tsan")},
    jobs=[j("as-shipped", "o", "update", shards=2), j("asan", "a", salt=1000, mode="update", shards=3),
          j("no-uring", "o", salt=3000, mode="update", env={"VF_NO_URING": "1"}), j("tsan", "t", salt=2000, mode="update", shards=2)],
    rule="a history counts when it removes something (hash of its operations and of the slots handed out)",
    assumptions=["that every live vector stays reachable is a statistical claim (the graph is repaired lazily): floors over all searches of all histories",
                 "flush is not claimed to be atomic against a crash"],
    min={"evaluations": 120, "distinct": 100, "inserts": 5000, "removes": 5000, "flushes": 400, "reopens": 300, "slot_reuses": 2000, "refusals": 400, "answers": 4000},
)
CHECKS["N03"] = dict(
    builds={"o": b("diskann.cpp", "prod"), "a": b("diskann.cpp", "asan"), "t": b("diskann.cpp", "tsan")},
    jobs=[j("as-shipped", "o", "conc", shards=2), j("asan", "a", salt=1000, mode="conc", shards=2), j("tsan", "t", salt=2000, mode="conc", shards=2),
          j("no-uring", "t", salt=3000, mode="conc", env={"VF_NO_URING": "1"})],
    rule="a run counts by its shape and the number and timing of its overlapping searches and updates",
    assumptions=["the coroutine runtime (libcoro) is a stand-in with the same interface",
                 "a result slot may be reused between traversal and labelling: a search that overlaps a removal and an insert may report the new label"],
    min={"evaluations": 30, "distinct": 30, "searches": 20000, "overlapping_searches": 10000, "inserts": 2500, "removes": 800, "stable_distances": 50000},
)

CHECKS["N04"] = dict(
    builds={"o": b("blocks.cpp", "prod"), "a": b("blocks.cpp", "asan"), "t": b("blocks.cpp", "tsan")},
    jobs=[j("models", "a", "model", shards=3), j("pages", "a", "layout", shards=3), j("pages-as-shipped", "o", salt=1000, mode="layout"),
          j("pages-no-uring", "o", salt=3000, mode="layout", env={"VF_NO_URING": "1"}),
          j("concurrent", "t", "conc", shards=2), j("concurrent-as-shipped", "o", salt=1000, mode="conc"), j("concurrent-asan", "a", salt=2000, mode="conc")],
    rule="a history counts by the operations done and the slots, bits or pages they touched (hash); a concurrent run by what its readers saw",
    assumptions=["where the kernel offers no io_uring the reactor read path is not exercised"],
    min={"evaluations": 600, "distinct": 500, "allocs": 10000, "reuses": 6000, "bitmap_probes": 400000, "page_reads": 40000, "page_writes": 8000,
         "page_flushes": 1200, "raced_fills": 500, "search_pages": 1800, "cache_lookups": 50000, "page_observations": 50000, "overlapped_reads": 5000},
)
CHECKS["N05"] = dict(
    builds={"o": b("blocks.cpp", "prod"), "a": b("blocks.cpp", "asan")},
    jobs=[j("asan", "a", "pq", shards=4), j("as-shipped", "o", salt=1000, mode="pq", shards=2)],
    rule="a table counts by its codes and seed (hash)",
    assumptions=["floating-point comparisons allow rounding; a tie between two nearest centroids may go either way"],
    min={"evaluations": 120, "distinct": 110, "codes_judged": 200000, "table_distances": 60000, "exact_codebooks": 60, "single_encodings": 2500, "retrainings": 110},
)
CHECKS["U01"] = dict(
    builds={"o": b("vamana.cpp", "prod"), "a": b("vamana.cpp", "asan"), "t": b("vamana.cpp", "tsan")},
    jobs=[j("as-shipped", "o", "build"), j("asan", "a", salt=1000, mode="build", shards=3), j("threads-as-shipped", "o", salt=2000, mode="conc"),
          j("threads-asan", "a", salt=3000, mode="conc"), j("threads-tsan", "t", salt=4000, mode="conc", shards=2)],
    rule="a build counts by its graph, a pruning by its candidates and result, a queue by its operations (hash)",
    assumptions=["recall and reachability are judged in aggregate: floors 0.97 (0.8 on tight clusters, 0.6 where vectors repeat) and 99.6 %; 0.2 recall for degree bounds below 12"],
    min={"evaluations": 5000, "distinct": 2000, "nodes_checked": 80000, "answers": 40000, "exhaustive_searches": 1000, "covered_candidates": 40000, "queue_rounds": 1000,
         "rebuilds": 100, "round_trips": 300, "shared_searches": 2000},
)
CHECKS["U02"] = dict(
    builds={"o": b("vamana.cpp", "prod"), "a": b("vamana.cpp", "asan")},
    jobs=[j("as-shipped", "o", "part", shards=2, env=OMP2), j("asan", "a", salt=1000, mode="part", shards=5, env=OMP2)],
    rule="a partition counts by its assignment, a merge or build by its graph (hash)",
    assumptions=["recall and reachability are judged in aggregate: floors 0.97 (0.8 on tight clusters, 0.6 where vectors repeat) and 99.6 %; 0.2 recall for degree bounds below 12"],
    min={"evaluations": 1500, "distinct": 250, "assignments": 80000, "merged_nodes": 40000, "partitioned_builds": 80, "answers": 50000, "budgets": 25},
)
CHECKS["U03"] = dict(
    builds={"o": b("corrupt.cpp", "prod"), "a": b("corrupt.cpp", "asan")},
    jobs=[j("graphs", "a", "graphs"), j("segments", "a", "segments", shards=2), j("segments-as-shipped", "o", salt=1000, mode="segments"),
          j("diskann", "a", "diskann", shards=3), j("diskann-as-shipped", "o", salt=1000, mode="diskann")],
    rule="an altered file set counts by the files' contents and what became of it (hash)",
    assumptions=["an altered byte that still makes a consistent file is that other file: it is then judged by what it says",
                 "memory wrongly touched by the kernel on the library's behalf is seen only where the allocator notices"],
    min={"evaluations": 20000, "distinct": 15000, "refused_graphs": 10000, "sound_graphs": 300, "opened_collections": 1000, "refused_collections": 3500, "refused_headers": 1000,
         "refused_indexes": 1400, "opened_indexes": 1000, "searches_of_altered": 8000, "updates_of_altered": 250},
)
LEVELS["U03"] = "exploration"

CHECKS["L02"] = dict(
    builds={"o": b("io.cpp", "prod"), "a": b("io.cpp", "asan"), "t": b("io.cpp", "tsan"), "po": b("io_pool.cpp", "prod"), "pa": b("io_pool.cpp", "asan"), "pt": b("io_pool.cpp", "tsan")},
    jobs=[j("readers", "a", "readers"), j("readers-as-shipped", "o", salt=1000, mode="readers"), j("readers-race", "t", salt=2000, mode="readers"),
          j("pool-readers", "pa", salt=3000, mode="readers"), j("pool-readers-as-shipped", "po", salt=4000, mode="readers"), j("pool-readers-race", "pt", salt=5000, mode="readers"),
          j("engines", "a", "engines"), j("engines-race", "t", salt=2000, mode="engines"), j("engines-as-shipped", "o", salt=1000, mode="engines"),
          j("reactor", "a", "reactor"), j("reactor-race", "t", salt=2000, mode="reactor"),
          j("maps", "a", "maps"), j("faults", "a", "faults"), j("faults-as-shipped", "o", salt=1000, mode="faults"),
          j("pool-faults", "pa", salt=3000, mode="faults"), j("pool-faults-race", "pt", salt=5000, mode="faults")],
    rule="a batch of requests counts by its size, shape and file (hash)",
    assumptions=["the kernel's own reads are right; what is judged is that each request's bytes, count and outcome reach the requester once",
                 "failures are injected at pread, io_setup and io_getevents; io_uring submissions are not made to fail",
                 "where io_uring is not available its engines are not exercised (the evidence then has no uring_engines or reactor_reads)"],
    min={"evaluations": 30000, "distinct": 15000, "async_reads": 500000, "blocking_reads": 400000, "refused_reads": 30000, "batched_reads": 200000, "batched_writes": 30000,
         "mappings": 400, "refused_mappings": 500, "failed_searches": 1200, "good_searches": 1200, "failing_reads": 400},
)
LEVELS["L02"] = "exploration"

PYTHON = "/opt/vp/venv/bin/python"


def py_shim(run):
    """pybind11 as installed reads numpy 1 array descriptors; the one thing of them the library needs is asked of numpy itself"""
    import os, shutil
    d = os.path.join(run.BUILD, "pyshim")
    if os.path.exists(os.path.join(d, "ready")):
        return
    tmp = d + ".tmp%d" % os.getpid()
    shutil.copytree("/usr/include/pybind11", os.path.join(tmp, "pybind11"))
    f = os.path.join(tmp, "pybind11", "numpy.h")
    with open(f) as h:
        s = h.read()
    s = s.replace("detail::array_descriptor_proxy(m_ptr)->elsize", 'attr("itemsize").cast<ssize_t>()')
    s = s.replace("detail::array_descriptor_proxy(detail::array_proxy(m_ptr)->descr)->elsize", "dtype().itemsize()")
    with open(f, "w") as h:
        h.write(s)
    open(os.path.join(tmp, "ready"), "w").close()
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp)


def py_link(run, bins):
    """the Python package, from the tree's own .py files and the extension just compiled"""
    import hashlib, os, shutil, subprocess
    tag = hashlib.sha256((run.repo_hash() + repr(sorted(bins.items()))).encode()).hexdigest()[:16]
    d = os.path.join(run.BUILD, "pypkg-" + tag)
    if not os.path.exists(d):
        tmp = d + ".tmp%d" % os.getpid()
        shutil.copytree(run.REPO + "/python/src/alayalite", tmp + "/alayalite", ignore=shutil.ignore_patterns("__pycache__"))
        p = subprocess.run(["/usr/bin/g++", "-shared", "-fopenmp"] + [bins[k] for k in sorted(bins) if k.startswith("py_")] + ["-o", tmp + "/alayalite/_alayalitepy.so"] + run.LIBS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            shutil.rmtree(tmp)
            return "linking the Python extension failed:\n" + p.stdout[-4000:]
        os.rename(tmp, d)
    os.environ["VF_PYPKG"] = d
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    return None


def py_builds(tier):
    import os
    import run as R
    f = ["-fPIC", "-fvisibility=hidden", "-I" + R.BUILD + "/pyshim", "-I/usr/include/python3.12"]
    return {"py_" + n: b(R.REPO + "/python/src/%s.cpp" % n, "plain", flags=f, obj=True) for n in ("index_factory", "pybind", "diskann_bindings")}


def pj(name, script, mode, **kw):
    return dict(name=name, bin=None, mode=mode, cmd=[PYTHON, V_HARNESS + script], variant="plain", **kw)


V_HARNESS = __file__.rsplit("/", 1)[0] + "/harness/"
CHECKS["P01"] = dict(
    builds=py_builds, prebuild=py_shim, link=py_link,
    jobs=[pj("histories", "pycol.py", "history", shards=4), pj("limits", "pycol.py", "limits", shards=2), pj("indexes", "pycol.py", "index", shards=2), pj("views", "pycol.py", "views", shards=2)],
    rule="a history counts by its operations, its configuration and the ids it ends with (hash)",
    assumptions=["every collection keeps its records below the client's directory", "pybind11 2.11 is taught numpy 2's array descriptor, which the version the project pins knows",
                 "recall is judged in aggregate (floors 0.8 to 0.9, 0.5 for inner product); content, order and membership are judged answer by answer"],
    min={"evaluations": 5000, "distinct": 150, "gets": 2500, "filters": 500, "selective_filters": 300, "full_comparisons": 900, "reloads": 400, "reindexes": 100, "queries": 900, "hybrid_queries": 900,
         "deletes": 500, "filter_deletes": 250, "upserts": 600, "refusals": 800, "full_refusals": 250, "index_queries": 1800, "index_reloads": 250, "view_queries": 1200, "view_changes": 150},
)


def crash_link(run, bins):
    import os
    os.environ["VF_CRASHLIB"] = bins["crashlib"]
    return py_link(run, bins)


CHECKS["P02"] = dict(
    builds=lambda tier: dict(py_builds(tier), crashlib=b("crashlib.cpp", "plain", flags=["-fPIC", "-shared"], libs=["-ldl"])), prebuild=py_shim, link=crash_link,
    jobs=[pj("crashes", "pycrash.py", "crash", shards=8)],
    rule="a session counts by where it was killed, how many changes it had acknowledged and how many items came back (hash)",
    assumptions=["the process is killed, at file-system calls made through libc, also in the middle of a write; the machine keeps running (losing power is R01, R02 and N04's subject)",
                 "a creation that was killed leaves a directory that has to be removed before the name can be created again; the library says so",
                 "reindex removes the old collection before it has built the new one and is not among the operations killed"],
    min={"evaluations": 2200, "distinct": 1200, "kills": 1400, "killed_recoveries": 700, "recoveries": 1500, "recovered_items": 15000, "killed_in_insert": 150, "killed_in_upsert": 80, "killed_in_delete": 60,
         "killed_in_save": 120, "killed_in_open": 60, "killed_in_reopen": 40, "killed_in_create": 100, "in_flight_dropped": 120},
)
LEVELS["P02"] = "exploration"
LEVELS["P01"] = "exploration"
