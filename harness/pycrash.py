"""P02: processes working on a Python collection are killed at file-system calls; what the next one finds is compared with what was acknowledged."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
if os.environ.get("LD_PRELOAD") != os.environ["VF_CRASHLIB"]:
    os.environ.update(LD_PRELOAD=os.environ["VF_CRASHLIB"], OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.environ["VF_PYPKG"])
from vfpy import ctx
import builtins, ctypes, json, logging, select, shutil, signal, time
logging.disable(logging.CRITICAL)
_print = builtins.print
builtins.print = lambda *a, **k: _print(*a, **k) if k.get("file") else None
import numpy as np
from alayalite import Client

LIB = ctypes.CDLL(os.environ["VF_CRASHLIB"])
LIB.vf_arm.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_long]
COUNT, KILL, TORN = 1, 2, 3
WORDS = ["a", "b", "tech", "née", ""]


def in_child(fn, seconds=60):
    """runs fn(say) in a process of its own; what it said, and how it ended"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1), os.dup2(devnull, 2)
            fn(lambda *what: os.write(wr, (json.dumps(what) + "\n").encode()))
            os._exit(0)
        except BaseException as e:
            LIB.vf_disarm()
            os.write(wr, (json.dumps(("error", type(e).__name__ + ": " + str(e)[:400])) + "\n").encode())
            os._exit(3)
    os.close(wr)
    data, end = b"", time.time() + seconds
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([rd], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(rd)
            return [], "hang"
        d = os.read(rd, 1 << 20)
        if not d:
            break
        data += d
    os.close(rd)
    status = os.waitpid(pid, 0)[1]
    lines = [json.loads(x) for x in data.decode().splitlines() if x.endswith("]")]
    return lines, -os.WTERMSIG(status) if os.WIFSIGNALED(status) else os.WEXITSTATUS(status)


class Plan:
    """a collection's configuration, and what has been acknowledged of it: id -> (document, metadata, vector)"""

    def __init__(self, r, d):
        self.r, self.root, self.name = r, os.path.realpath(os.path.join(d, "db")), "col"
        os.makedirs(self.root)
        q = r.choice(["none", "none", "sq8", "sq4"])
        self.kw = dict(index_type=r.choice(["hnsw", "nsg", "fusion"]), metric=r.choice(["l2", "l2", "ip", "cosine"]), quantization_type=q, capacity=r.choice([400, 1500]), max_nbrs=r.choice([8, 16]),
                       id_type=np.uint32 if r.random() < .7 else np.uint64, rocksdb_path=os.path.join(self.root, self.name, "rocksdb"))
        if r.random() < .5:
            self.kw["indexed_fields"] = ["n", "cat"]
        self.dim = r.choice([2, 8, 17])
        self.d, self.serial = {}, 0
        self.made = False
        self.what = "%s %s dim=%d cap=%d idx=%s" % (q, self.kw["metric"], self.dim, self.kw["capacity"], "indexed_fields" in self.kw)

    def item(self, key=None):
        r = self.r
        if key is None:
            self.serial += 1
            key = "%s%d" % (r.choice(["k", "ü"]), self.serial)
        meta = {"n": r.randint(-3, 3), "cat": r.choice(WORDS), "f": r.randint(-8, 8) / 4, "ok": r.random() < .5}
        return [key, "doc %d %s" % (r.randint(0, 10 ** 9), "x" * r.choice([0, 5, 3000])), [r.gauss(0, 1) + .01 for _ in range(self.dim)], meta]

    def stored(self, v):
        v = np.array(v, dtype=np.float32).astype(np.float64)
        return v / np.linalg.norm(v) if self.kw["metric"] == "cosine" else v

    def after(self, d, op, upto):
        """the state d after the first upto changes of op"""
        d = dict(d)
        for x in op[1][:upto] if op[0] in ("insert", "upsert", "delete") else []:
            if op[0] == "delete":
                d.pop(x, None)
            else:
                d[x[0]] = (x[1], x[3], self.stored(x[2]))
        return d

    def ops(self, n):
        out, d = [], dict(self.d)
        for _ in range(n):
            x, keys = self.r.random(), sorted(d)
            if x < .4 or not keys:
                op = ["insert", [self.item() for _ in range(self.r.randint(1, 3))]]
            elif x < .65:
                op = ["upsert", [self.item(k) for k in self.r.sample(keys, min(len(keys), self.r.randint(1, 3)))]]
            elif x < .85:
                op = ["delete", self.r.sample(keys, min(len(keys), self.r.randint(1, 3)))]
            else:
                op = [self.r.choice(["save", "reopen"])]
            d = self.after(d, op, 99)
            out.append(op)
        return out


def work(p, ops, stage, mode, target, close):
    """the body of a session: open or create, then ops; armed from the stage on"""

    def body(say):
        def arm(at):
            if at == stage:
                LIB.vf_arm(mode, p.root.encode(), target)
        arm(-1)
        client = Client(p.root)
        col = client.get_collection(p.name)
        if not p.made and col is None:
            col = client.create_collection(p.name, **p.kw)
        say("open")
        for i, op in enumerate(ops):
            arm(i)
            if op[0] == "insert":
                col.insert([(k, d, np.array(v, dtype=np.float32), m) for k, d, v, m in op[1]])
            elif op[0] == "upsert":
                col.upsert([(k, d, np.array(v, dtype=np.float32), m) for k, d, v, m in op[1]])
            elif op[0] == "delete":
                col.delete_by_id(op[1])
            elif op[0] == "save":
                client.save_collection(p.name)
            else:
                col.close()
                client = Client(p.root)
                col = client.get_collection(p.name)
            say("did", i)
        arm(len(ops))
        if close:
            col.close()
        say("calls", LIB.vf_disarm())

    return body


def dump(p):
    def body(say):
        client = Client(p.root)
        if client.list_collections() != [p.name]:
            say("absent", client.list_collections())
            return
        col = client.get_collection(p.name)
        g = col.filter_query({}, limit=10 ** 6)
        cpp = col.get_cpp_index()
        vs = [cpp.get_data_by_id(i).tolist() for i in g["internal_id"]]
        by_n = {str(n): sorted(col.filter_query({"n": n}, limit=10 ** 6)["id"]) for n in range(-3, 4)}
        by_id = col.get_by_id(g["id"])["id"]
        near = []
        for lo in range(0, len(vs), 40):
            q = col.batch_query(vs[lo:lo + 40], 1, ef_search=100)
            near += [[row[0] if row else "", dist[0] if dist else 0] for row, dist in zip(q["id"], q["distance"])]
        col.close()
        say("state", g["id"], g["document"], g["metadata"], vs, by_n, by_id, near)

    return body


def same(a, b):
    return set(a) == set(b) and all(a[k][0] == b[k][0] and a[k][1] == b[k][1] and np.allclose(a[k][2], b[k][2], rtol=1e-5, atol=1e-6) for k in a)


def differ(a, b):
    lost, extra = sorted(set(b) - set(a)), sorted(set(a) - set(b))
    other = [k for k in a if k in b and not same({k: a[k]}, {k: b[k]})]
    return "lost %s, extra %s, other content %s of %d" % (lost[:4], extra[:4], other[:4], len(b))


def crash(i, r, d):
    p = Plan(r, d)
    history = []
    for session in range(ctx.tiered(5, 8)):
        ops = p.ops(r.randint(2, 7)) if p.made else [["insert", [p.item() for _ in range(r.choice([1, 3, 12, 30]))]]] + ([["save"]] if r.random() < .3 else [])
        if not p.made:  # what a killed creation leaves is in the way of the next, which says so
            shutil.rmtree(os.path.join(p.root, p.name), ignore_errors=True)
        stage = r.randint(-1, len(ops)) if p.made else r.choice([-1, 0, 0, 99, 99, 99])
        kind = "open" if stage < 0 else ops[stage][0] if stage < len(ops) else "close"
        if kind == "insert" and not p.made:
            kind = "create"
        top = {"open": 160, "create": 160, "save": 40, "reopen": 160, "close": 12}.get(kind, 18)
        mode = r.choice([KILL, KILL, TORN])
        target = r.randint(0, top) if r.random() < .8 else r.randint(0, 8)
        lines, end = in_child(work(p, ops, stage, mode, target, r.random() < .5))
        where = "killed at call %d from %s on (%s), session %d, %s, before: %s" % (target, kind, "torn" if mode == TORN else "whole", session, p.what, history[-3:])
        ctx.eval()
        if not ctx.check(end != "hang", "hang:session", "no answer", where):
            return
        err = [x[1] for x in lines if x[0] == "error"]
        if not ctx.check(end in (0, 137) and not err, "session:failed", end, err, where):
            return
        done = sum(1 for x in lines if x[0] == "did")
        opened = any(x[0] == "open" for x in lines)
        killed = end == 137
        ctx.count("kills" if killed else "completions")
        if killed:
            ctx.count("killed_in_" + ("open" if not opened else "close" if done == len(ops) else "create" if not p.made and done == 0 else ops[done][0]))
        # recovery may die, too
        for again in range(r.choice([0, 0, 1, 2])):
            t = r.randint(0, 160) if r.random() < .7 else r.randint(0, 25)
            lines2, end2 = in_child(work(p, [], -1, r.choice([KILL, TORN]), t, True))
            err = [x[1] for x in lines2 if x[0] == "error"]
            if not ctx.check(end2 in (0, 137) and not err, "recovery:failed", end2, err, "recovery killed at", t, "after", where):
                return
            ctx.count("killed_recoveries" if end2 == 137 else "completed_recoveries")
        # judge
        base = p.d
        for op in ops[:done]:
            base = p.after(base, op, 99)
        flight = ops[done] if killed and opened and done < len(ops) else ["none"]
        size = len(flight[1]) if len(flight) > 1 else 0
        wants = [p.after(base, flight, k) for k in range(size + 1)]
        state, end3 = in_child(dump(p))
        if not ctx.check(end3 == 0 and state and state[-1][0] in ("state", "absent"), "reopen:failed", end3, state[-1:], where):
            return
        state = state[-1]
        if state[0] == "absent":
            if not ctx.check(not p.made and done == 0, "reopen:absent", "the collection is gone:", state[1], where):
                return
            ctx.count("absent_after_create")
            history.append("create killed")
            continue
        ids, docs, metas, vs, by_n, by_id, near = state[1:]
        got = {k: (a, m, np.array(v)) for k, a, m, v in zip(ids, docs, metas, vs)}
        ctx.check(len(got) == len(ids), "reopen:twice", "ids repeat:", len(ids) - len(got), where)
        if not p.made:
            wants = wants[-1:]  # a creation is whole or absent
        ok = [w for w in wants if same(got, w)]
        if not ctx.check(bool(ok), "reopen:state", differ(got, wants[0]), "| or with all of the one in flight:", differ(got, wants[-1]), "in flight:", flight[0], size, "done", done, "of", [o[0] for o in ops], where):
            return
        ctx.count("recovered_items", len(got)), ctx.count("recoveries")
        ctx.count("in_flight_kept" if size and ok[0] is not wants[0] else "in_flight_dropped", 1 if size else 0)
        ctx.check(sorted(by_id) == sorted(ids), "reopen:by-id", "get_by_id finds", len(by_id), "of", len(ids), where)
        for n in range(-3, 4):
            want = sorted(k for k in got if got[k][1]["n"] == n)
            ctx.check(by_n[str(n)] == want, "reopen:filter", "filter n ==", n, "gives", by_n[str(n)][:5], "not", want[:5], where)
        hit = sum(1 for k, (h, _) in zip(ids, near) if h == k or (h in got and p.kw["metric"] == "ip"))
        ctx.count("self_found", hit), ctx.count("self_asked", len(ids))
        bad = [h for h, _ in near if h and h not in got]
        ctx.check(not bad, "reopen:search", "a search finds", bad[:3], "which is not there", where)
        p.d, p.made = got, True
        history.append("%s@%d" % (kind, target) if killed else "clean")
        ctx.distinct(kind, target, mode, done, len(got), p.what)
    if i < 3:
        ctx.sample("%s: %s, %d items at the end" % (p.what, history, len(p.d)))


def main():
    ctx.cases("crash", ctx.tiered(560, 4000), crash)
    a, b = ctx.counters.get("self_found", 0), ctx.counters.get("self_asked", 0)
    ctx.check(b < 200 or a >= b * .93, "found:self", "only", a, "of", b, "vectors are found by a search for themselves")
    return ctx.finish()


sys.exit(main())
