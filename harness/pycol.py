"""P01: histories of a Python collection against a dictionary of documents."""
import gc, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.environ["VF_PYPKG"])
from vfpy import ctx
import logging
logging.disable(logging.CRITICAL)
import builtins
import numpy as np
_print = builtins.print
builtins.print = lambda *a, **k: _print(*a, **k) if k.get("file") else None
import alayalite
from alayalite import Client

WORDS = ["", "a", "b", "ab", "tech", "sport", "née", "x_y", "10", "9"]
FIELDS = {"cat": lambda r: r.choice(WORDS), "n": lambda r: r.choice([0, 1, -1, 5, 7, 2 ** 40, -2 ** 40, r.randint(-20, 20)]),
          "f": lambda r: r.choice([0.5, -0.5, 1e9, -1e9, r.randint(-50, 50) / 4]), "ok": lambda r: r.random() < .5, "group": lambda r: "g%d" % r.randint(0, 3)}


class Model:
    """the dictionary: item id -> (document, metadata, vector as stored)"""

    def __init__(self):
        self.d = {}

    def match(self, flt):
        return {k for k, v in self.d.items() if matches(flt, v[1])}


def one(op, want, have):
    if have is None:
        return False
    if op == "$in":
        return any(type(w) is type(have) and w == have for w in want)
    if type(have) is not type(want):
        return False
    return {"$eq": have == want, "$gt": have > want, "$ge": have >= want, "$lt": have < want, "$le": have <= want}[op]


def matches(flt, meta):
    """conjunction of the entries of a dictionary; $or: at least one of its dictionaries, $and: all"""
    if not flt:
        return True
    for k, v in flt.items():
        if k == "$and":
            ok = all(matches(s, meta) for s in v)
        elif k == "$or":
            ok = any(matches(s, meta) for s in v)
        elif isinstance(v, dict):
            ok = all(one(op, w, meta.get(k)) for op, w in v.items())
        else:
            ok = one("$eq", v, meta.get(k))
        if not ok:
            return False
    return True


def make_filter(r, depth=0):
    x = r.random()
    if depth < 2 and x < .2:
        return {"$or": [make_filter(r, depth + 1) for _ in range(r.randint(1, 3))]}
    if depth < 2 and x < .35:
        return {"$and": [make_filter(r, depth + 1) for _ in range(r.randint(1, 3))]}
    if depth < 2 and x < .45:
        d = make_filter(r, 2)
        d["$or"] = [make_filter(r, depth + 1) for _ in range(r.randint(1, 3))]
        return d
    out = {}
    for f in r.sample(sorted(FIELDS), r.choice([1, 1, 1, 2])):
        v = FIELDS[f](r)
        y = r.random()
        if y < .35 or isinstance(v, bool):
            out[f] = v
        elif y < .5:
            out[f] = {"$in": [FIELDS[f](r) for _ in range(r.randint(1, 3))]}
        elif y < .6 and not isinstance(v, str):
            lo, hi = sorted([v, FIELDS[f](r)])
            out[f] = {"$ge": lo, "$lt": hi}
        else:
            op = "$eq" if isinstance(v, str) and r.random() < .5 else r.choice(["$gt", "$ge", "$lt", "$le", "$eq"])
            out[f] = {op: v}
    return out


class World:
    def __init__(self, r, d):
        self.r = r
        self.url = os.path.join(d, "db")
        self.name = "c" + r.choice(["", "_1", "ö"])
        q = r.choice(["none"] * 4 + ["sq8", "sq4", "rabitq"])
        self.quant = q
        self.dt = np.float32 if q != "none" or r.random() < .6 else r.choice([np.int8, np.uint8])
        self.metric = r.choice(["l2", "l2", "ip", "cosine", "cos", "euclidean", "COSINE"]) if self.dt == np.float32 else r.choice(["l2", "ip"])
        if q == "rabitq":
            self.metric = "l2"
        self.dim = r.choice([1, 2, 3, 8, 17, 32]) if q != "rabitq" else r.choice([64, 70, 128])
        self.cap = r.choice([100000, 100000, 400])
        idt = np.uint32 if q == "rabitq" or r.random() < .7 else np.uint64
        kw = dict(index_type=r.choice(["hnsw", "nsg", "fusion"]), metric=self.metric, quantization_type=q, capacity=self.cap, id_type=idt, max_nbrs=r.choice([8, 16, 32]))
        if r.random() < .5:
            kw["indexed_fields"] = r.sample(["cat", "n", "f", "ok", "group"], r.randint(1, 3))
        if r.random() < .4:
            kw["build_threads"] = r.randint(1, 3)
        if r.random() < .3:
            kw["materialized_view_build_threads"] = r.randint(1, 2)
        self.kw = kw
        self.mutable = q != "rabitq"
        self.gone = {}
        self.serial = 0
        self.log = []
        self.m = Model()
        self.saved = False
        self.used = 0  # slots of the collection: a change takes one, only a reindex gives them back
        # every collection stores its records below the client's directory, as the recovery log expects
        self.kw["rocksdb_path"] = os.path.join(self.url, self.name, "rocksdb")
        self.client = Client(self.url)
        self.col = self.client.create_collection(self.name, **kw)

    def describe(self):
        return "%s %s %s dim=%d cap=%d idx=%s" % (self.quant, self.metric, np.dtype(self.dt).name, self.dim, self.cap, self.kw.get("indexed_fields"))

    def vec(self):
        if self.dt == np.float32:
            v = np.array([self.r.gauss(0, 1) for _ in range(self.dim)], dtype=np.float32)
            return v if np.abs(v).max() > 1e-3 else v + 1
        lo, hi = (-100, 100) if self.dt == np.int8 else (0, 200)
        return np.array([self.r.randint(lo, hi) for _ in range(self.dim)], dtype=self.dt)

    def stored(self, v):
        if self.metric.lower() in ("cos", "cosine"):
            v = v / np.linalg.norm(v)
        return v

    def item(self, key=None):
        r = self.r
        if key is None:
            self.serial += 1
            key = r.choice(["id%d", "%d", "k %d", "ü%d"]) % self.serial
        meta = {f: g(r) for f, g in FIELDS.items() if r.random() < .8}
        doc = r.choice(["", "doc %s" % key, "日本" * r.randint(1, 40), "x" * r.randint(0, 2000)])
        return key, doc, self.vec(), meta

    def put(self, it):
        self.used += 1
        self.m.d[it[0]] = (it[1], it[3], self.stored(it[2]))
        self.gone.pop(it[0], None)

    def drop(self, k):
        self.gone[k] = self.m.d.pop(k)

    def settle(self, items):
        """after a refusal for want of room: each change was either made or not"""
        for it in items:
            g = self.col.get_by_id([it[0]])
            if g["document"] == [it[1]] and g["metadata"] == [it[3]]:
                self.put(it)
            else:
                old = self.m.d.get(it[0])
                ctx.check(g["id"] == ([it[0]] if old else []) and (not old or g["document"] == [old[0]]), "full:lost", repr(it[0]), "was refused and is now", g["id"], self.describe())
        ctx.count("full_refusals")

    # ------------------------------------------------------------- operations
    def insert(self):
        r = self.r
        items = [self.item() for _ in range(r.randint(1, 6))]
        dup = self.m.d and r.random() < .15
        if dup:
            items.append(self.item(r.choice(sorted(self.m.d))))
            ctx.count("duplicate_inserts")
        if self.gone and r.random() < .3:
            items.insert(0, self.item(r.choice(sorted(self.gone))))
        fits = self.used + len(items) <= self.cap
        try:
            self.col.insert([(k, d, v if r.random() < .7 else v.tolist(), m) for k, d, v, m in items])
            ok = True
        except (RuntimeError, ValueError) as e:
            ok, why = False, str(e)
        if not self.mutable:
            ctx.check(not ok, "insert:unsupported", "an insert into a collection that cannot grow is accepted")
            return
        if not ok and not fits:
            self.settle(items)
        elif dup:
            ctx.check(not ok, "insert:duplicate", "an insert of an id that exists is accepted", self.describe())
            for it in items[:-1]:
                self.put(it)  # accepted before the duplicate was met
        elif ok:
            for it in items:
                self.put(it)
            ctx.count("inserts", len(items))
        else:
            ctx.check(False, "insert:refused", why, self.describe())
        self.log.append(("i", len(items), ok))

    def upsert(self):
        r = self.r
        items = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            src = self.m.d if x < .6 else self.gone if x < .75 else None
            items.append(self.item(r.choice(sorted(src)) if src else None))
        items = list({it[0]: it for it in items}.values())
        fits = self.used + len(items) <= self.cap
        try:
            self.col.upsert([tuple(i) for i in items])
            ok = True
        except RuntimeError as e:
            ok, why = False, str(e)
        if not self.mutable:
            ctx.check(not ok, "insert:unsupported", "an upsert into a collection that cannot grow is accepted")
            return
        if ok:
            for it in items:
                self.put(it)
            ctx.count("upserts", len(items))
        elif not fits:
            self.settle(items)
        else:
            ctx.check(False, "upsert:refused", why, self.describe())
        self.log.append(("u", len(items)))

    def delete(self):
        r = self.r
        keys = [k for k in sorted(self.m.d) if r.random() < .1][:6]
        if self.gone and r.random() < .5:
            keys.append(r.choice(sorted(self.gone)))
        if r.random() < .3:
            keys.insert(0, "never")
        try:
            self.col.delete_by_id(keys)
        except RuntimeError:
            ctx.check(not self.mutable, "delete:refused", "deleting is refused", self.describe())
            ctx.count("refused_deletes")
            return
        for k in keys:
            if k in self.m.d:
                self.drop(k)
                ctx.count("deletes")
        self.log.append(("d", len(keys)))

    def delete_filter(self):
        r = self.r
        f = make_filter(r)
        want = self.m.match(f)
        if len(want) > len(self.m.d) * .6 and r.random() < .8:
            return
        batch = r.choice([1, 2, 5, 1000])
        if not self.mutable and want:
            try:
                self.col.delete_by_filter(f, 1000)
                ctx.check(False, "delete:unsupported", "deleting by filter from a collection that cannot change is accepted")
            except RuntimeError:
                pass
            return
        n = self.col.delete_by_filter(f, batch_size=batch)
        ctx.check(n == len(want), "delete-filter:count", n, "deleted,", len(want), "match", f, self.describe())
        for k in want:
            self.drop(k)
        ctx.count("filter_deletes", len(want))
        self.log.append(("df", len(want)))

    def reindex(self):
        if not self.m.d:
            return
        self.col.reindex(ef_construction=self.r.choice([50, 200]), num_threads=self.r.choice([None, 1, 2]))
        self.used = len(self.m.d)
        ctx.count("reindexes")
        self.log.append("r")

    def reload(self):
        r = self.r
        if r.random() < .6 or not self.saved:
            self.client.save_collection(self.name)
            self.saved = True
        if r.random() < .2:  # changes after the save are in the log
            self.upsert() if self.mutable else None
        self.col.close()
        self.col = self.client = None
        gc.collect()
        self.client = Client(self.url)
        ctx.check(self.client.list_collections() == [self.name], "reload:listed", "collections after reopening:", self.client.list_collections())
        self.col = self.client.get_collection(self.name)
        ctx.count("reloads")
        self.log.append("s")

    # ------------------------------------------------------------- observations
    def same(self, key, doc, meta, when):
        e = self.m.d.get(key)
        if not ctx.check(e is not None, when + ":live", repr(key), "is returned but is not in the collection", self.describe(), "was:", key in self.gone):
            return False
        return ctx.check(doc == e[0] and meta == e[1] and all(type(meta[k]) is type(e[1][k]) for k in meta), when + ":content", repr(key), "has", repr(doc)[:60], meta, "not",
                         repr(e[0])[:60], e[1], self.describe())

    def look(self):
        r = self.r
        keys = sorted(self.m.d)
        ask = r.sample(keys, min(len(keys), 12)) + (r.sample(sorted(self.gone), min(len(self.gone), 4))) + ["never"]
        r.shuffle(ask)
        g = self.col.get_by_id(ask)
        ctx.check(g["id"] == [k for k in ask if k in self.m.d], "get:ids", "asked for", ask, "got", g["id"], self.describe())
        for k, d, m in zip(g["id"], g["document"], g["metadata"]):
            self.same(k, d, m, "get")
        ctx.count("gets", len(ask))

    def everything(self):
        g = self.col.filter_query({}, limit=100000)
        ctx.check(sorted(g["id"]) == sorted(self.m.d), "all:ids", "missing", sorted(set(self.m.d) - set(g["id"]))[:5], "extra", sorted(set(g["id"]) - set(self.m.d))[:5],
                  "twice", len(g["id"]) - len(set(g["id"])), "of", len(self.m.d), self.describe(), "last", self.log[-3:])
        cpp = self.col.get_cpp_index()
        ctx.check(len(set(g["internal_id"])) == len(g["internal_id"]), "all:internal", "two items share an internal id")
        for k, d, m, i in zip(g["id"], g["document"], g["metadata"], g["internal_id"]):
            if not self.same(k, d, m, "all"):
                continue
            v = cpp.get_data_by_id(i)
            w = self.m.d[k][2]
            if self.quant != "rabitq":
                ctx.check(len(v) == len(w) and np.allclose(v, w, rtol=1e-5, atol=1e-6), "all:vector", repr(k), "has vector", v[:4], "not", w[:4], self.describe(), self.log[-3:])
        ctx.count("full_comparisons"), ctx.count("items_compared", len(g["id"]))

    def filters(self):
        f = make_filter(self.r)
        want = self.m.match(f)
        limit = self.r.choice([100000, max(1, len(want)), max(1, len(want) // 2), 1])
        g = self.col.filter_query(f, limit=limit)
        ids = g["id"]
        ctx.check(len(set(ids)) == len(ids) == min(limit, len(want)) and set(ids) <= want, "filter:ids", f, "limit", limit, "gives", sorted(ids)[:6], "of", sorted(want)[:6],
                  len(ids), len(want), self.describe())
        for k, d, m in zip(ids, g["document"], g["metadata"]):
            self.same(k, d, m, "filter")
        ctx.count("filters"), ctx.count("selective_filters", 0 < len(want) < len(self.m.d))

    def scores(self, q, keys):
        a = np.array([self.m.d[k][2] for k in keys], dtype=np.float64).reshape(len(keys), -1)
        if self.metric.lower() in ("l2", "euclidean"):
            return ((a - q) ** 2).sum(1)
        return -(a @ q)

    def query(self, n):
        out = []
        for _ in range(n):
            v = self.vec() if self.r.random() < .7 or not self.m.d else np.array(self.m.d[self.r.choice(sorted(self.m.d))][2])
            out.append(v)
        return out

    def true_q(self, v):
        v = np.asarray(v, dtype=np.float64)
        return v / np.linalg.norm(v) if self.metric.lower() in ("cos", "cosine") else v

    def search(self):
        r = self.r
        if self.quant == "rabitq":
            return
        qs = self.query(r.randint(1, 5))
        limit = r.choice([1, 3, 10, 25])
        g = self.col.batch_query([q.tolist() for q in qs], limit, ef_search=max(limit, r.choice([50, 100, 200])), num_threads=r.randint(1, 3))
        live = sorted(self.m.d)
        ctx.check(len(g["id"]) == len(qs), "query:rows", "rows")
        for q, ids, docs, metas, ds in zip(qs, g["id"], g["document"], g["metadata"], g["distance"]):
            hits = [(k, d, m, s) for k, d, m, s in zip(ids, docs, metas, ds) if k != ""]
            keys = [h[0] for h in hits]
            ctx.check(len(set(keys)) == len(keys) and len(keys) <= limit, "query:distinct", "ids repeat in", keys, self.describe())
            tq = self.true_q(q)
            got = 0
            if all([self.same(k, d, m, "query") for k, d, m, _ in hits]) and hits:
                s = self.scores(tq, keys)
                rep = np.array([h[3] for h in hits])
                tol = 2e-3 * (1 + np.abs(s)) if self.quant == "none" else 2e-3 * (1 + np.abs(s))
                ctx.check((np.abs(s - rep) <= tol).all(), "query:distance", "distances", rep[:4], "true", s[:4], self.describe(), self.log[-3:])
                ctx.check((np.diff(rep) >= -1e-5 * (1 + np.abs(rep[1:]))).all(), "query:order", "distances out of order", rep, self.describe())
                best = np.sort(self.scores(tq, live))[:limit]
                got = int((s <= best[-1] + 2e-3 * (1 + abs(best[-1]))).sum())
            kind = "recall_%s%s" % (self.quant, "_ip" if self.metric == "ip" else "")
            ctx.count(kind + "_got", got), ctx.count(kind + "_of", min(limit, len(live)))
            ctx.count("queries")

    def hybrid(self):
        r = self.r
        f = r.choice([None, {}, 1, 1, 1, 1])
        f = make_filter(r) if f == 1 else f
        want = self.m.match(f)
        n = r.choice([1, 1, 3])
        qs = self.query(n)
        limit = r.choice([1, 5, 20])
        hint = r.choice([None, None, "auto", "disable", "bitset_prefilter", "iterative_filter"])
        g = self.col.hybrid_query(qs[0].tolist() if n == 1 and r.random() < .5 else [q.tolist() for q in qs], limit, metadata_filter=f,
                                  ef_search=max(limit, r.choice([50, 100])), num_threads=r.randint(1, 3), filter_execution_hint=hint)
        ctx.check(len(g["id"]) == n, "hybrid:rows", "rows")
        for q, row in zip(qs, g["id"]):
            ids = [k for k in row if k != ""]
            ctx.check(len(set(ids)) == len(ids) <= limit, "hybrid:distinct", "ids repeat in", ids, hint, self.describe())
            bad = [k for k in ids if k not in want]
            ctx.check(not bad, "hybrid:match", bad[:3], "do not match", f, "live:", [k in self.m.d for k in bad[:3]], hint, self.describe())
            if want and not bad and ids:
                tq = self.true_q(q)
                s, best = self.scores(tq, ids), np.sort(self.scores(tq, sorted(want)))[:limit]
                if self.quant != "rabitq":
                    ctx.check((np.diff(s) >= -3e-3 * (1 + np.abs(s[1:]))).all() or self.quant != "none", "hybrid:order", "not nearest first", s, hint, self.describe())
                got = int((s <= best[-1] + 2e-3 * (1 + abs(best[-1]))).sum())
            else:
                got = 0
            kind = "hybrid_%s%s%s" % (self.quant, "_iter" if hint == "iterative_filter" else "", "_ip" if self.metric == "ip" else "")
            ctx.count(kind + "_got", got), ctx.count(kind + "_of", min(limit, len(want)))
            ctx.count("hybrid_queries")

    def misuse(self):
        """what cannot be meant is refused, and changes nothing"""
        r = self.r
        bad = np.ones(self.dim + r.choice([-1, 1, 5]), dtype=self.dt) if self.dim > 1 else np.ones(self.dim + 3, dtype=self.dt)
        k = r.choice(["insert", "upsert", "query", "hybrid", "op", "limit"])
        try:
            if k == "insert":
                self.col.insert([("bad", "", bad, {})])
            elif k == "upsert":
                self.col.upsert([(r.choice(sorted(self.m.d)) if self.m.d and r.random() < .5 else "bad", "", bad, {})])
            elif k == "query":
                self.col.batch_query([bad.tolist()], 3)
            elif k == "hybrid":
                self.col.hybrid_query([bad.tolist()], 3)
            elif k == "op":
                self.col.filter_query({"n": {"$near": 3}})
            else:
                self.col.batch_query([self.vec().tolist()], 20, ef_search=5)
            ctx.violation("misuse:" + k, "accepted; " + self.describe())
        except (ValueError, RuntimeError):
            ctx.count("refusals")


def history(i, r, d):
    w = World(r, d)
    first = [w.item() for _ in range(r.choice([1, 2, 5, 20, 60, 120]) if w.quant != "rabitq" else r.choice([33, 60, 120]))]
    ctx.check(w.col.get_by_id(["x"])["id"] == [], "get:empty", "an empty collection has items")
    w.col.insert([tuple(x) for x in first])
    for x in first:
        w.put(x)
    if i < 2:
        ctx.sample("%s, %d items at first" % (w.describe(), len(first)))
    w.everything()
    ops = [(w.insert, 3), (w.upsert, 3), (w.delete, 3), (w.delete_filter, 1), (w.reindex, 1), (w.reload, 2), (w.look, 2), (w.filters, 4), (w.search, 3), (w.hybrid, 4), (w.misuse, 1)]
    flat = [o for o, k in ops for _ in range(k)]
    for _ in range(ctx.tiered(30, 45)):
        r.choice(flat)()
        ctx.eval()
        if len(ctx.viol) > 40:
            break
        if r.random() < .15:
            w.everything()
    w.reload()
    w.everything()
    w.filters(), w.search(), w.hybrid()
    ctx.distinct(w.log, w.describe(), sorted(w.m.d))
    w.col.close()


def limits(i, r, d):
    """a full collection refuses what does not fit and loses nothing"""
    w = World(r, d)
    if w.quant == "rabitq":
        return
    w.col.close()
    w.client.reset(delete_on_disk=True)
    w.cap = r.choice([4, 9, 33])
    w.kw["capacity"] = w.cap
    w.name = w.name + "L"
    w.kw["rocksdb_path"] = os.path.join(w.url, w.name, "rocksdb")
    w.col = w.client.create_collection(w.name, **w.kw)
    first = [w.item() for _ in range(w.cap - r.randint(0, 3))]
    w.col.insert([tuple(x) for x in first])
    for x in first:
        w.put(x)
    for _ in range(25):
        x = r.random()
        if x < .35:
            w.insert()
        elif x < .6 and w.m.d:
            w.upsert()
        elif x < .7:
            w.delete()
        elif x < .78:
            w.saved = False
            w.reload()
        else:
            w.everything()
        ctx.eval()
    w.everything()
    ctx.distinct(w.log, w.describe(), sorted(w.m.d))
    w.col.close()


def views(i, r, d):
    """filters on the first indexed field, which the collection partitions by: after fitting, after changes, after reopening"""
    w = World(r, d)
    w.col.close()
    w.client.reset(delete_on_disk=True)
    w.quant = r.choice(["none"] * 3 + ["sq8", "rabitq"])
    w.mutable = w.quant != "rabitq"
    w.dt, w.dim = np.float32, r.choice([8, 17]) if w.quant != "rabitq" else 64
    w.metric = r.choice(["l2", "l2", "cosine"]) if w.quant != "rabitq" else "l2"
    w.name += "V"
    field = r.choice(["group", "group", "n", "ok", "f"])
    spread = r.choice([2, 4, 9, 9, 200])
    draw = {"group": lambda: "g%d" % r.randrange(spread), "n": lambda: r.randrange(spread) - 3, "ok": lambda: r.random() < .5, "f": lambda: r.randrange(spread) / 4}[field]
    w.kw = dict(index_type="hnsw", metric=w.metric, quantization_type=w.quant, capacity=100000, id_type=r.choice([np.uint32, np.uint64]) if w.quant != "rabitq" else np.uint32, max_nbrs=16,
                indexed_fields=[field] + r.choice([[], ["cat"], ["cat", "n" if field != "n" else "ok"]]), rocksdb_path=os.path.join(w.url, w.name, "rocksdb"))
    w.col = w.client.create_collection(w.name, **w.kw)

    def item(key=None):
        it = w.item(key)
        it[3].pop(field, None)
        if r.random() < .93:
            it[3][field] = draw()
        return it

    def ask(target=None, limit=None, what="fitted"):
        """target: an item whose vector is the query"""
        v = w.m.d.get(target) or w.gone.get(target) if target else None
        vals = [draw() for _ in range(r.choice([1, 2, 3]))]
        if v and field in v[1]:
            vals[0] = v[1][field]
        x = r.random()
        f = ({field: vals[0]} if x < .35 else {field: {"$in": vals}} if x < .5 else {"$and": [{field: {"$in": vals}}, {field: {"$eq": vals[0]}}]} if x < .6
             else {"$and": [{field: {"$in": vals + [draw()]}}, {field: {"$in": vals}}]} if x < .7 else {"$or": [{field: a} for a in vals]} if x < .75
             else {field: {"$in": vals}, "cat": {"$in": r.sample(WORDS, 5)}} if x < .9 else {"$and": [{field: vals[0]}, {"$or": [{"cat": {"$in": WORDS[:6]}}, {"ok": True}]}]})
        want = sorted(w.m.match(f))
        q = np.asarray(v[2], dtype=np.float32) if v else w.vec()
        limit = limit or r.choice([1, 4, 10, len(want) + 2])
        hint = r.choice([None, None, "auto", "bitset_prefilter", "disable", "iterative_filter"])
        n = r.choice([1, 1, 2])
        g = w.col.hybrid_query([q.tolist()] * n, limit, metadata_filter=f, ef_search=max(limit, 100), num_threads=n, filter_execution_hint=hint)
        tq = w.true_q(q)
        for row in g["id"]:
            ids = [k for k in row if k != ""]
            bad = [k for k in ids if k not in want]
            ctx.check(len(set(ids)) == len(ids) <= limit and not bad, "views:match", bad[:3], "do not match", f, what, hint, w.describe())
            if hint != "iterative_filter":
                ctx.check(len(ids) == min(limit, len(want)), "views:fill", len(ids), "results of", len(want), "matches with limit", limit, f, what, hint, w.describe())
            got = 0
            if ids and not bad:
                s, best = w.scores(tq, ids), np.sort(w.scores(tq, want))[:limit]
                got = int((s <= best[-1] + 2e-3 * (1 + abs(best[-1]))).sum())
                ctx.check(w.quant != "none" or (np.diff(s) >= -3e-3 * (1 + np.abs(s[1:]))).all(), "views:order", s, hint, what, w.describe())
            kind = "views_%s%s" % (w.quant, "_iter" if hint == "iterative_filter" else "")
            ctx.count(kind + "_got", got), ctx.count(kind + "_of", min(limit, len(want)))
            if target in w.m.d and target in want and hint != "iterative_filter":
                ctx.count("views_fresh_got", target in ids), ctx.count("views_fresh_of")
        ctx.count("view_queries"), ctx.eval()

    first = [item() for _ in range(r.choice([40, 150, 400]))]
    w.col.insert([tuple(x) for x in first])
    for x in first:
        w.put(x)
    for rnd in range(ctx.tiered(4, 8)):
        for _ in range(6):
            ask(what="whole")
        if w.mutable:
            for step in range(r.randint(1, 3)):
                keys, x = sorted(w.m.d), r.random()
                if x < .35:
                    it = item()
                    w.col.insert([it]), w.put(it)
                elif x < .65:
                    it = item(r.choice(keys))
                    w.gone["old"] = w.m.d[it[0]]  # the value it had before
                    w.col.upsert([it]), w.put(it)
                    ask("old", what="replaced")
                    w.gone.pop("old", None)
                else:
                    it = [r.choice(keys)]
                    if r.random() < .5:
                        w.col.delete_by_id([it[0]]), w.drop(it[0])
                    else:
                        f = {"$and": [{"cat": w.m.d[it[0]][1].get("cat", "a")}, {field: w.m.d[it[0]][1].get(field, draw())}]}
                        hit = w.m.match(f)
                        w.col.delete_by_filter(f)
                        for k in hit:
                            w.drop(k)
                    ctx.check(set(w.col.filter_query({}, limit=100000)["id"]) == set(w.m.d), "views:all", "ids differ", w.describe())
                for _ in range(2):
                    ask(it[0], what="changed")
                    ask(it[0], r.choice([1, 3]), what="changed")
                ctx.count("view_changes")
        if r.random() < .5:
            w.saved = w.saved and r.random() < .5
            w.reload()
        else:
            w.reindex()
        w.log.append(len(w.m.d))
    w.everything()
    ctx.distinct(w.log, w.describe(), field, spread, sorted(w.m.d))
    w.col.close()


def layout(r, a):
    """the same values, laid out in memory in one of the ways numpy has"""
    k = r.choice(["c", "f", "rows", "cols", "wide", "back", "t"])
    ctx.count("layout_" + k)
    n, d = a.shape
    if k == "f":
        return np.asfortranarray(a)
    if k == "rows":
        b = np.full((2 * n, d), 99, dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if k == "cols":
        b = np.full((n, 2 * d), 99, dtype=a.dtype)
        b[:, ::2] = a
        return b[:, ::2]
    if k == "wide":
        b = np.full((n, d + 5), 99, dtype=a.dtype)
        b[:, 3:3 + d] = a
        return b[:, 3:3 + d]
    if k == "back":
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if k == "t":
        return np.ascontiguousarray(a.T).T
    return a


def plain_index(i, r, d):
    """an Index without documents, against a dictionary of vectors"""
    g = np.random.default_rng(r.randint(0, 2 ** 31))
    q = r.choice(["none"] * 4 + ["sq8", "sq4"])
    dt = np.float32 if q != "none" or r.random() < .6 else r.choice([np.int8, np.uint8])
    metric = r.choice(["l2", "l2", "ip", "cosine", "cos", "euclidean", "Cosine", "L2"]) if dt == np.float32 else r.choice(["l2", "ip"])
    cos, l2 = metric.lower() in ("cos", "cosine"), metric.lower() in ("l2", "euclidean")
    dim, n, cap = r.choice([1, 2, 5, 16, 33]), r.choice([1, 2, 7, 60, 200]), r.choice([100000, 260])
    idt = r.choice([np.uint32, np.uint32, np.uint64])
    none = np.iinfo(idt).max
    url = os.path.join(d, "db")
    what = "%s %s %s dim=%d n=%d cap=%d %s" % (q, metric, np.dtype(dt).name, dim, n, cap, np.dtype(idt).name)

    def vecs(k):
        if dt == np.float32:
            a = g.normal(size=(k, dim)).astype(np.float32)
            return np.where(np.abs(a) < 1e-2, np.float32(.5), a)
        return g.integers(-100 if dt == np.int8 else 0, 101, size=(k, dim)).astype(dt)

    def kept(a):
        a = a.astype(np.float64)
        return a / np.linalg.norm(a, axis=-1, keepdims=True) if cos else a

    client = Client(url)
    ix = client.create_index("ix", index_type=r.choice(["hnsw", "nsg", "fusion"]), metric=metric, quantization_type=q, capacity=cap, id_type=idt, max_nbrs=r.choice([8, 16, 32]))
    a = vecs(n)
    ix.fit(layout(r, a), ef_construction=r.choice([100, 200]), num_threads=r.choice([1, 1, 3]))
    live, used = {k: v for k, v in enumerate(kept(a))}, n
    dead = set()

    def true(qs, ids):
        m = np.array([live[k] for k in ids]).reshape(len(ids), dim)
        return ((m - qs) ** 2).sum(1) if l2 else -(m @ qs)

    log = []
    for _ in range(ctx.tiered(25, 40)):
        x = r.random()
        ctx.eval()
        if x < .25:
            v = layout(r, vecs(3))[r.randint(0, 2)]
            try:
                k = int(ix.insert(v if r.random() < .7 or dt != np.float32 else list(map(float, v))))
                ctx.check(k not in live and k not in dead and k < used + 1, "index:id", k, "is given to a new vector after", used, what)
                live[k] = kept(v)
                used += 1
                ctx.count("index_inserts")
            except RuntimeError as e:
                ctx.check(used >= cap, "index:refused", e, used, what)
        elif x < .4 and len(live) > 1:
            k = r.choice(sorted(live))
            ix.remove(k)
            dead.add(k)
            del live[k]
            ctx.count("index_removes")
        elif x < .45:
            bad = np.ones(dim + 1, dtype=dt)
            for name, f in (("insert", lambda: ix.insert(bad)), ("search", lambda: ix.search(bad, 1)), ("batch", lambda: ix.batch_search(bad.reshape(1, -1), 1)),
                            ("remove", lambda: ix.remove(used + 5)), ("get", lambda: ix.get_data_by_id(used + 5)), ("refit", lambda: ix.fit(vecs(2)))):
                try:
                    f()
                    ctx.violation("index:misuse:" + name, "accepted; " + what)
                except (ValueError, RuntimeError, IndexError):
                    ctx.count("refusals")
        elif x < .55:
            for k in r.sample(sorted(live), min(5, len(live))):
                v = ix.get_data_by_id(k)
                ctx.check(len(v) == dim and np.allclose(v, live[k], rtol=1e-5, atol=1e-6), "index:vector", k, "has", v[:4], "not", live[k][:4], what, log[-3:])
                ctx.count("index_vectors")
        elif x < .65:
            client.save_index("ix")
            ix.close()
            client = Client(url)
            ctx.check(client.list_indices() == ["ix"], "index:listed", client.list_indices())
            ix = client.get_index("ix")
            ctx.check(ix.get_dim() == dim and np.dtype(ix.get_dtype()) == dt, "index:shape", ix.get_dim(), ix.get_dtype(), what)
            ctx.count("index_reloads")
        else:
            k = r.choice([1, 3, 10, 30])
            qs = vecs(r.randint(1, 4))
            if r.random() < .4:
                qs[0] = a[0]
            ef = max(k, r.choice([60, 120]))
            lay = layout(r, qs)
            y = r.random()
            ds = None
            if y < .3:
                j = r.randint(0, len(qs) - 1)
                ids, qs = [ix.search(lay[j], k, ef)], qs[j:j + 1]
            elif y < .6:
                ids = ix.batch_search(lay, k, ef, r.randint(1, 3))
            else:
                ids, ds = ix.batch_search_with_distance(lay, k, ef, r.randint(1, 3))
            for row, (qv, one_) in enumerate(zip(qs, ids)):
                got = [int(t) for t in one_ if int(t) != none]
                if not ctx.check(len(set(got)) == len(got) and all(t in live for t in got), "index:live", [int(t) for t in one_], k, len(live), y, [t for t in got if t not in live][:4], "returned, removed:",
                                 [t in dead for t in got if t not in live][:4], what, log[-3:]):
                    continue
                qv = kept(qv)
                s = true(qv, got)
                if ds is not None:
                    rep = np.asarray(ds[row], dtype=np.float64)[:len(got)]
                    ctx.check((np.abs(rep - s) <= 2e-3 * (1 + np.abs(s))).all(), "index:distance", rep[:4], "true", s[:4], what)
                if q == "none":
                    ctx.check((np.diff(s) >= -2e-3 * (1 + np.abs(s[1:]))).all(), "index:order", s, what)
                best = np.sort(true(qv, sorted(live)))[:k]
                hit = int((s <= best[-1] + 2e-3 * (1 + abs(best[-1]))).sum()) if got else 0
                ctx.count("index_recall%s_got" % ("" if metric != "ip" else "_ip"), hit), ctx.count("index_recall%s_of" % ("" if metric != "ip" else "_ip"), len(best))
                ctx.count("index_queries")
        log.append(round(x, 2))
    ctx.distinct(log, what, sorted(live))
    ix.close()


def floor(kind, least):
    got, of = ctx.counters.get(kind + "_got", 0), ctx.counters.get(kind + "_of", 0)
    if of > 300:
        ctx.check(got >= of * least, "found:" + kind, "only", got, "of", of, "nearest vectors are found")


def main():
    if ctx.mode == "history":
        ctx.cases("history", ctx.tiered(128, 800), history)
        for q in ("none", "sq8", "sq4"):
            floor("recall_" + q, .9), floor("hybrid_" + q, .85)
        floor("recall_none_ip", .5), floor("hybrid_rabitq", .8)
    elif ctx.mode == "views":
        ctx.cases("views", ctx.tiered(40, 400), views)
        for q in ("none", "sq8", "rabitq"):
            floor("views_" + q, .93)
        floor("views_fresh", .95)
    elif ctx.mode == "limits":
        ctx.cases("limits", ctx.tiered(48, 300), limits)
    elif ctx.mode == "index":
        ctx.cases("index", ctx.tiered(120, 1200), plain_index)
        floor("index_recall", .9), floor("index_recall_ip", .5)
    return ctx.finish()


sys.exit(main())
