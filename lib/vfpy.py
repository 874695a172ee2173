"""The Python side of vf.hpp: same command line, same result files."""
import argparse, hashlib, json, os, random, shutil, struct, sys, tempfile, traceback


class Ctx:
    def __init__(self):
        p = argparse.ArgumentParser()
        p.add_argument("--seed", type=int, default=1)
        p.add_argument("--tier", default="quick")
        p.add_argument("--shard", default="0/1")
        p.add_argument("--out", default="")
        p.add_argument("--scratch", default="/tmp/vf_scratch")
        p.add_argument("--mode", default="")
        p.add_argument("--case", type=int, default=-1)
        a = p.parse_args()
        self.seed, self.mode, self.out, self.only = a.seed, a.mode, a.out, a.case
        self.thorough = a.tier == "thorough"
        self.shard, self.shards = (int(x) for x in a.shard.split("/"))
        self.scratch = a.scratch
        os.makedirs(self.scratch, exist_ok=True)
        self.counters, self.samples, self.viol, self.vcount, self.hashes, self.current = {}, [], [], {}, set(), ""

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def eval(self, n=1):
        self.count("evaluations", n)

    def distinct(self, *things):
        self.hashes.add(struct.unpack("<Q", hashlib.sha256(repr(things).encode()).digest()[:8])[0])

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s[:600])

    def violation(self, key, msg):
        self.count("violations")
        self.vcount[key] = self.vcount.get(key, 0) + 1
        if self.vcount[key] <= 3 and len(self.viol) < 60:
            self.viol.append({"key": key, "msg": msg[:1500], "where": self.current})
            print("VF-VIOLATION %s: %s [%s]" % (key, msg, self.current), file=sys.stderr, flush=True)
            self.write()

    def check(self, cond, key, *msg):
        self.count("checks")
        if not cond:
            self.violation(key, " ".join(str(m) for m in msg))
        return cond

    def write(self):
        if not self.out:
            return
        with open(self.out + ".hash", "wb") as f:
            for h in self.hashes:
                f.write(struct.pack("<Q", h))
        with open(self.out + ".tmp", "w") as f:
            json.dump({"counters": self.counters, "samples": self.samples, "violations": self.viol, "current": self.current}, f)
        os.replace(self.out + ".tmp", self.out)

    def tiered(self, q, t):
        return t if self.thorough else q

    def cases(self, name, total, fn):
        for i in range(total):
            if i % self.shards != self.shard or (self.only >= 0 and i != self.only):
                continue
            self.current = "%s case=%d seed=%d" % (name, i, self.seed)
            self.write()
            d = tempfile.mkdtemp(dir=self.scratch)
            try:
                fn(i, random.Random(self.seed * 1000003 + i), d)
            except Exception as e:
                self.violation("exception:%s" % name, "%s: %s | %s" % (type(e).__name__, e, traceback.format_exc()[-900:]))
            finally:
                shutil.rmtree(d, ignore_errors=True)

    def finish(self):
        self.count("finished")
        self.write()
        return 0


ctx = Ctx()
