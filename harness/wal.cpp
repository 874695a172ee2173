// R01: write-ahead log.  Oracle: list of acknowledged operations kept by the harness.
#include "vf.hpp"
#include "crashfs.hpp"
#include <sys/mman.h>
#include <thread>
#include "recovery/write_ahead_log.hpp"
using namespace alaya::recovery;
using vf::Rng;

struct Op {
  uint64_t id;
  MutationType type;
  std::vector<char> payload;
};
static const MutationType kTypes[] = {MutationType::kInsert, MutationType::kUpsert, MutationType::kRemoveByItemId, MutationType::kRemoveByInternalId};

static std::vector<char> rnd_payload(Rng &r) {
  size_t n;
  switch (r.below(8)) {
    case 0: n = 0; break;
    case 1: n = 1 + r.below(3); break;
    case 2: n = r.chance(0.05) ? 8192 + r.below(70000) : r.below(200); break;
    default: n = r.below(64); break;
  }
  std::vector<char> p(n);
  for (auto &c : p) c = static_cast<char>(r.next());
  if (n >= 8 && r.chance(0.5)) {  // hostile content: frame magics inside the payload
    uint32_t m = r.chance(0.5) ? kWalFrameMagic : kWalTrailerMagic;
    memcpy(p.data() + r.below(n - 4), &m, 4);
  }
  return p;
}
static bool same(const WalRecord &a, const Op &b) { return a.op_id_ == b.id && a.mutation_type_ == b.type && a.payload_ == b.payload; }
static std::string ids(const std::vector<WalRecord> &v) {
  std::string s;
  for (auto &x : v) s += std::to_string(x.op_id_) + " ";
  return s.substr(0, 300);
}
static std::string ids(const std::vector<Op> &v) {
  std::string s;
  for (auto &x : v) s += std::to_string(x.id) + " ";
  return s.substr(0, 300);
}
// replay of `path` must be exactly `want` (sorted by id), minus ids <= through
static void expect(const std::string &path, std::vector<Op> want, uint64_t through, const char *key, const std::string &why) {
  std::sort(want.begin(), want.end(), [](auto &a, auto &b) { return a.id < b.id; });
  std::erase_if(want, [&](auto &o) { return o.id <= through; });
  WriteAheadLog w(path);
  uint64_t mx = 0;
  auto got = w.replayable_records(through, &mx);
  bool ok = got.size() == want.size();
  for (size_t i = 0; ok && i < got.size(); ++i) ok = same(got[i], want[i]);
  vf::count("replays");
  vf::count("replayed_records", got.size());
  VF_CHECK(ok, key, why, " through=", through, " got [", ids(got), "] want [", ids(want), "]");
  for (auto &o : want) VF_CHECK(mx >= o.id, "wal:max_seen", "max_seen ", mx, " < committed id ", o.id);
  VF_CHECK(mx >= through, "wal:max_seen", "max_seen ", mx, " < through ", through);
}

// ---- histories: sessions, crashes cutting the file anywhere after the last acknowledged byte, garbage tails, reopen + append
static void histories() {
  vf::cases("wal-history", vf::tiered(900, 20000), [](uint64_t, Rng &r) {
    vf::Tmp t("wal");
    auto path = t.s("d/wal.bin");
    std::vector<Op> committed;
    std::map<uint64_t, Op> pend_session;
    struct Mark { uint64_t end; size_t n; };
    uint64_t next = r.chance(0.2) ? (1ULL << 40) : 1;
    vf::Hash sig;
    int sessions = 1 + static_cast<int>(r.below(5));
    int cuts = 0;
    for (int s = 0; s < sessions; ++s) {
      auto w = std::make_unique<WriteAheadLog>(path);
      std::map<uint64_t, Op> pend;
      int steps = static_cast<int>(r.below(14)) + (s ? 1 : 0);
      uint64_t last_ack_size = std::filesystem::exists(path) ? std::filesystem::file_size(path) : 0;
      for (int k = 0; k < steps; ++k) {
        double u = r.unit();
        sig.add(static_cast<int>(u * 8));
        if (u < 0.45) {
          Op o{next++, kTypes[r.below(4)], rnd_payload(r)};
          w->append_prepare(WalRecord{.op_id_ = o.id, .mutation_type_ = o.type, .payload_ = o.payload});
          pend[o.id] = o;
        } else if (u < 0.85 && !pend.empty()) {
          auto it = pend.begin();
          std::advance(it, r.below(pend.size()));
          w->append_commit(it->first, it->second.type);
          committed.push_back(it->second);
          pend.erase(it);
          last_ack_size = std::filesystem::file_size(path);
        } else if (u < 0.88) {
          w->append_commit(next++, kTypes[r.below(4)]);  // commit that was never prepared: nothing to replay
        } else if (u < 0.91) {
          w->sync();
        } else if (u < 0.97) {
          auto got = w->replayable_records(0);
          VF_CHECK(got.size() == committed.size(), "wal:live-replay", "live replay got [", ids(got), "] want [", ids(committed), "]");
        } else if (u < 0.985) {
          w->truncate();
          committed.clear();
          pend.clear();
          last_ack_size = 0;
        }
      }
      w.reset();
      uint64_t size = std::filesystem::exists(path) ? std::filesystem::file_size(path) : 0;
      vf::eval();
      expect(path, committed, 0, "wal:replay", vf::cat("after session ", s));
      if (!committed.empty()) expect(path, committed, vf::ctx().seed ? committed[r.below(committed.size())].id : 0, "wal:replay-through", "applied-through");
      if (size > last_ack_size && r.chance(0.7)) {  // torn tail: what a crash inside an append leaves
        uint64_t c = last_ack_size + r.below(size - last_ack_size + 1);
        std::filesystem::resize_file(path, c);
        ++cuts;
        vf::count("torn_tails");
        expect(path, committed, 0, "wal:replay-torn", vf::cat("cut at ", c, " of ", size));
      }
      if (size && r.chance(0.25)) {  // blocks allocated but never written before the power went: zeros or old bytes
        auto d = vf::slurp(path);
        size_t n = 1 + r.below(60);
        bool z = r.chance(0.5);
        for (size_t i = 0; i < n; ++i) d.push_back(z ? 0 : static_cast<char>(r.next()));
        vf::spit(path, d);
        ++cuts;
        vf::count("garbage_tails");
        expect(path, committed, 0, "wal:replay-garbage", vf::cat("garbage tail of ", n));
      }
    }
    sig.add(cuts).add(committed.size());
    for (auto &o : committed) sig.add(o.payload.size());
    if (cuts && committed.size() > 1) vf::distinct(sig.get());
    if (cuts) vf::sample(vf::cat(sessions, " sessions, ", cuts, " torn tails, committed ids ", ids(committed)));
  });
}

// ---- every byte: cut a log at each length, replay, append, replay
static void every_cut() {
  vf::cases("wal-cut", vf::tiered(40, 700), [](uint64_t, Rng &r) {
    vf::Tmp t("cut");
    auto path = t.s("wal.bin");
    std::vector<std::pair<uint64_t, Op>> acked;  // (file size when acknowledged, op)
    {
      WriteAheadLog w(path);
      int n = 2 + static_cast<int>(r.below(4));
      std::vector<Op> pend;
      uint64_t id = 1;
      for (int i = 0; i < n; ++i) {
        Op o{id++, kTypes[r.below(4)], rnd_payload(r)};
        if (o.payload.size() > 200) o.payload.resize(200);
        w.append_prepare(WalRecord{.op_id_ = o.id, .mutation_type_ = o.type, .payload_ = o.payload});
        pend.push_back(o);
        if (r.chance(0.7)) {
          size_t j = r.below(pend.size());
          w.append_commit(pend[j].id, pend[j].type);
          acked.push_back({std::filesystem::file_size(path), pend[j]});
          pend.erase(pend.begin() + static_cast<long>(j));
        }
      }
    }
    auto full = vf::slurp(path);
    for (size_t c = 0; c <= full.size(); ++c) {
      auto p2 = t.s("c.bin");
      vf::spit(p2, std::vector<char>(full.begin(), full.begin() + static_cast<long>(c)));
      std::vector<Op> want;
      for (auto &[sz, o] : acked) if (sz <= c) want.push_back(o);
      expect(p2, want, 0, "wal:replay-torn", vf::cat("cut at byte ", c, " of ", full.size()));
      vf::eval();
      vf::count("cut_points");
      {
        WriteAheadLog w(p2);
        Op o{1000, kTypes[c % 4], rnd_payload(r)};
        w.append_prepare(WalRecord{.op_id_ = o.id, .mutation_type_ = o.type, .payload_ = o.payload});
        w.append_commit(o.id, o.type);
        want.push_back(o);
      }
      expect(p2, want, 0, "wal:append-after-torn", vf::cat("append after a cut at byte ", c, " of ", full.size()));
      vf::Hash h;
      h.add(full.data(), c);
      vf::distinct(h.get());
    }
  });
}

// ---- hostile bytes: never crash, never lose what lies before the damage
static void hostile() {
  vf::cases("wal-hostile", vf::tiered(1500, 30000), [](uint64_t, Rng &r) {
    vf::Tmp t("h");
    auto path = t.s("wal.bin");
    std::vector<std::pair<uint64_t, Op>> acked;
    {
      WriteAheadLog w(path);
      for (uint64_t i = 1; i <= 1 + r.below(6); ++i) {
        Op o{i, kTypes[r.below(4)], rnd_payload(r)};
        w.append_prepare(WalRecord{.op_id_ = o.id, .mutation_type_ = o.type, .payload_ = o.payload});
        w.append_commit(o.id, o.type);
        acked.push_back({std::filesystem::file_size(path), o});
      }
    }
    auto d = vf::slurp(path);
    size_t at = r.below(d.size());
    switch (r.below(4)) {
      case 0: d[at] = static_cast<char>(d[at] ^ (1 << r.below(8))); break;
      case 1: for (size_t i = at; i < d.size(); ++i) d[i] = static_cast<char>(r.next()); break;
      case 2: { static const uint64_t k[] = {~0ULL, 1ULL << 63, 1ULL << 30, (1ULL << 30) + 1, 0x7fffffff, 0xffffffff};
        // aim at a size field: the first frame at or after `at`
        uint64_t v = k[r.below(6)];
        at = 0;
        for (auto &[e, o] : acked) if (r.chance(0.5)) at = e;
        if (at + 24 > d.size()) at = 0;
        memcpy(d.data() + at + 16, &v, 8);
        break; }
      default: d.erase(d.begin() + static_cast<long>(at), d.begin() + static_cast<long>(std::min(d.size(), at + 1 + r.below(40)))); break;
    }
    vf::spit(path, d);
    WriteAheadLog w(path);
    uint64_t mx = 0;
    auto got = w.replayable_records(0, &mx);
    vf::eval();
    std::vector<Op> must;
    for (auto &[e, o] : acked) if (e <= at) must.push_back(o);
    for (auto &o : must) {
      bool f = false;
      for (auto &g : got) f |= same(g, o);
      VF_CHECK(f, "wal:prefix-lost", "record ", o.id, " before the damage at ", at, " not replayed; got [", ids(got), "]");
    }
    for (size_t i = 1; i < got.size(); ++i) VF_CHECK(got[i - 1].op_id_ <= got[i].op_id_, "wal:order", "replay not in operation order: ", ids(got));
    Op o{5000, kTypes[0], {'x'}};
    {
      WriteAheadLog w2(path);
      w2.append_prepare(WalRecord{.op_id_ = o.id, .mutation_type_ = o.type, .payload_ = o.payload});
      w2.append_commit(o.id, o.type);
    }
    auto got2 = WriteAheadLog(path).replayable_records(0);
    bool f = false;
    for (auto &g : got2) f |= same(g, o);
    VF_CHECK(f, "wal:append-after-damage", "append after damage at ", at, " acknowledged but not replayed: ", ids(got2));
    vf::Hash h;
    h.add(d.data(), d.size());
    vf::distinct(h.get());
  });
}

// ---- concurrent appenders and readers
static void concurrent() {
  vf::cases("wal-conc", vf::tiered(12, 200), [](uint64_t, Rng &r) {
    vf::Tmp t("c");
    auto path = t.s("wal.bin");
    WriteAheadLog w(path);
    const int T = 2 + static_cast<int>(r.below(3)), N = 25;
    std::atomic<uint64_t> next{1};
    std::mutex mu;
    std::vector<Op> acked;
    std::map<uint64_t, Op> prepared;
    std::atomic<int> running{T};
    std::vector<std::thread> th;
    for (int i = 0; i < T; ++i) {
      uint64_t sd = r.next();
      th.emplace_back([&, sd] {
        Rng q(sd);
        for (int k = 0; k < N; ++k) {
          Op o{next++, kTypes[q.below(4)], rnd_payload(q)};
          { std::lock_guard<std::mutex> g(mu); prepared[o.id] = o; }
          w.append_prepare(WalRecord{.op_id_ = o.id, .mutation_type_ = o.type, .payload_ = o.payload});
          if (q.chance(0.2)) std::this_thread::yield();
          if (q.chance(0.9)) {
            w.append_commit(o.id, o.type);
            std::lock_guard<std::mutex> g(mu);
            acked.push_back(o);
          }
        }
        running--;
      });
    }
    uint64_t overlapped = 0;
    while (running.load() > 0) {
      std::vector<Op> before;
      { std::lock_guard<std::mutex> g(mu); before = acked; }
      auto got = w.replayable_records(0);
      std::map<uint64_t, const WalRecord *> m;
      for (auto &g : got) VF_CHECK(m.emplace(g.op_id_, &g).second, "wal:duplicate", "id ", g.op_id_, " replayed twice");
      for (auto &o : before) VF_CHECK(m.count(o.id) && same(*m[o.id], o), "wal:conc-lost", "acknowledged ", o.id, " missing or altered in concurrent replay");
      std::lock_guard<std::mutex> g(mu);
      for (auto &x : got) VF_CHECK(prepared.count(x.op_id_) && same(x, prepared[x.op_id_]), "wal:conc-invented", "replayed ", x.op_id_, " that was never prepared so");
      if (acked.size() > before.size()) ++overlapped;
      vf::count("concurrent_replays");
    }
    for (auto &x : th) x.join();
    vf::count("overlapping_replays", overlapped);
    expect(path, acked, 0, "wal:replay", "after concurrent appends");
    vf::eval();
    vf::Hash h;
    for (auto &o : acked) h.add(o.id);  // commit order = observed interleaving
    vf::distinct(h.get());
    vf::sample(vf::cat(T, " appenders, commit order ", ids(acked)));
  });
}

// ---- process death, power loss and failing calls at every system call of a run
struct Shared {
  std::atomic<uint64_t> acked[64];
  std::atomic<uint32_t> n;
  std::atomic<uint32_t> started;
  std::atomic<uint32_t> failed;
  std::atomic<long> calls;
  std::atomic<long> acted;
};
static void scenario(const std::string &path, const std::vector<Op> &ops, Shared *sh, bool faults) {
  for (int session = 0; session < 2; ++session) {
    WriteAheadLog w(path);
    for (size_t i = session ? ops.size() / 2 : 0; i < (session ? ops.size() : ops.size() / 2); ++i) {
      auto &o = ops[i];
      sh->started = static_cast<uint32_t>(i + 1);
      try {
        w.append_prepare(WalRecord{.op_id_ = o.id, .mutation_type_ = o.type, .payload_ = o.payload});
        w.append_commit(o.id, o.type);
      } catch (const std::exception &) {
        if (!faults) throw;
        sh->failed++;
        continue;  // reported: not acknowledged
      }
      uint32_t k = sh->n;
      sh->acked[k] = o.id;
      sh->n = k + 1;
    }
  }
}
static void faults(crashfs::Mode mode, const char *name) {
  auto *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  vf::cases(name, vf::tiered(6, 60), [&](uint64_t ci, Rng &r) {
    std::vector<Op> ops;
    for (uint64_t i = 1; i <= 6; ++i) ops.push_back({i, kTypes[r.below(4)], rnd_payload(r)});
    if (ci % 2 == 0) ops[1].payload.resize(20000, 'z');  // larger than a stream buffer
    long total = 0;
    for (long target = -1; target < (target < 0 ? 1 : total); ++target) {
      vf::Tmp t("f");
      auto path = t.s("r/wal.bin");
      memset(static_cast<void *>(sh), 0, sizeof *sh);
      pid_t pid = fork();
      if (pid == 0) {
        int rc = 0;
        crashfs::arm(target < 0 ? crashfs::COUNT : mode, t.s(), target, (target & 1) ? ENOSPC : EIO);
        try {
          scenario(path, ops, sh, mode == crashfs::FAIL || mode == crashfs::SHORT);
        } catch (...) { rc = 3; }
        sh->calls = crashfs::disarm();
        sh->acted = crashfs::st->acted;
        _exit(rc);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      if (target < 0) { total = sh->calls; vf::count("fault_points", static_cast<uint64_t>(total)); }
      bool died = WIFEXITED(st) && WEXITSTATUS(st) == 137;
      if (died) vf::count("deaths");
      VF_CHECK(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || died), "wal:fault-crash", "child ended with status ", st, " at call ", target);
      if (sh->failed) vf::count("reported_failures", sh->failed);
      vf::eval();
      auto check = [&](const std::vector<WalRecord> &got, const char *when, bool extra) {
        std::map<uint64_t, int> seen;
        for (auto &g : got) {
          seen[g.op_id_]++;
          if (extra && g.op_id_ == 100) continue;
          VF_CHECK(g.op_id_ >= 1 && g.op_id_ <= ops.size() && same(g, ops[g.op_id_ - 1]), "wal:fault-altered", when, ": replayed record ", g.op_id_, " differs from what was appended (call ", target, ")");
          VF_CHECK(g.op_id_ <= sh->started, "wal:fault-invented", when, ": replayed ", g.op_id_, " never started");
        }
        for (uint32_t i = 0; i < sh->n; ++i)
          VF_CHECK(seen[sh->acked[i]] == 1, "wal:acked-lost", when, ": acknowledged op ", sh->acked[i].load(), " replayed ", seen[sh->acked[i]], " times; mode ", name, " call ", target, " of ", total, " got [", ids(got), "]");
        // only the operation in flight may be there without acknowledgement (or one whose failure was reported)
        if (mode == crashfs::KILL || mode == crashfs::TORN || mode == crashfs::POWER)
          VF_CHECK(got.size() <= sh->n + 1u + (extra ? 1 : 0), "wal:too-many", when, ": replayed ", got.size(), " with ", sh->n.load(), " acknowledged");
        if (extra) VF_CHECK(seen[100] == 1, "wal:append-after-crash", when, ": operation appended after the restart not replayed (call ", target, ")");
      };
      check(WriteAheadLog(path).replayable_records(0), "restart", false);
      {
        WriteAheadLog w(path);
        w.append_prepare(WalRecord{.op_id_ = 100, .mutation_type_ = kTypes[0], .payload_ = {'q'}});
        w.append_commit(100, kTypes[0]);
      }
      check(WriteAheadLog(path).replayable_records(0), "second restart", true);
      vf::Hash h;
      h.add(std::string(name)).add(target).add(sh->n.load()).add(sh->failed.load());
      for (auto &o : ops) h.add(o.payload.size());
      if (target >= 0) vf::distinct(h.get());
    }
    vf::sample(vf::cat(name, ": ", total, " system calls in the run, each made the fault point"));
  });
  munmap(sh, sizeof *sh);
}

int main(int argc, char **argv) {
  vf::init(argc, argv);
  auto &m = vf::ctx().mode;
  if (m == "hist") { histories(); every_cut(); }
  else if (m == "hostile") hostile();
  else if (m == "conc") concurrent();
  else if (m == "fault") {
    faults(crashfs::KILL, "kill");
    faults(crashfs::TORN, "torn");
    faults(crashfs::POWER, "power");
    faults(crashfs::FAIL, "fail");
    faults(crashfs::SHORT, "short");
  }
  return vf::finish();
}
