// R02: checkpoints + operation ids.  Oracle: acknowledged history kept in memory shared with the (dying) child.
#include "vf.hpp"
#include "crashfs.hpp"
#include <dlfcn.h>
#include <sys/mman.h>
#include <time.h>
#include "recovery/recovery_manager.hpp"
using namespace alaya::recovery;
using vf::Rng;
namespace fs = std::filesystem;

// ---- wall clock under test control (snapshot directories are named after it)
static int g_clock_mode = 0;  // 0 real, 1 frozen, 2 steps back, 3 coarse
static uint64_t g_clock_calls = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) {
  static auto r = crashfs::real<int (*)(clockid_t, struct timespec *)>("clock_gettime");
  int k = r(id, ts);
  if (id == CLOCK_REALTIME && g_clock_mode) {
    ++g_clock_calls;
    if (g_clock_mode == 1) { ts->tv_sec = 1700000000; ts->tv_nsec = 123000000; }
    if (g_clock_mode == 2) { ts->tv_sec = 1700000000 - static_cast<long>(g_clock_calls); ts->tv_nsec = 0; }
    if (g_clock_mode == 3) { ts->tv_sec = 1700000000 + static_cast<long>(g_clock_calls / 2); ts->tv_nsec = 0; }
  }
  return k;
}

struct Shared {
  std::atomic<uint32_t> n_acked;
  uint64_t acked_id[512];
  uint64_t acked_tag[512];
  std::atomic<uint64_t> inflight_id, inflight_tag, prepared_max;
  std::atomic<uint32_t> abandoned;
  uint64_t started_tag[512];
  std::atomic<uint32_t> n_started, checkpoints, checkpoint_failures, op_failures, id_regress, bad_state;
  std::atomic<long> calls;
  char note[200];
};
struct Item { uint64_t id, tag; bool operator==(const Item &) const = default; };

static void put(const fs::path &p, const void *d, size_t n) {  // component file, durable before publishing
  int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd < 0) throw std::runtime_error("component open");
  const char *c = static_cast<const char *>(d);
  while (n) {
    ssize_t k = write(fd, c, n);
    if (k <= 0) { close(fd); throw std::runtime_error("component write"); }
    c += k;
    n -= static_cast<size_t>(k);
  }
  if (fsync(fd) != 0) { close(fd); throw std::runtime_error("component fsync"); }
  close(fd);
}
static std::string list(const std::vector<Item> &v) {
  std::string s;
  for (auto &i : v) s += std::to_string(i.id) + " ";
  return s.size() > 240 ? s.substr(0, 120) + "..." + s.substr(s.size() - 120) : s;
}
// a client as PyIndex is one: restore checkpoint, replay, continue
struct Client {
  fs::path root;
  std::unique_ptr<RecoveryManager> m;
  std::vector<Item> state;
  uint64_t next = 0;
  std::string problem;
  explicit Client(const fs::path &r) : root(r) {
    m = std::make_unique<RecoveryManager>(root / "recovery", root / "db" / "live");
    uint64_t through = 0;
    if (auto man = m->current_snapshot()) {
      auto dir = m->current_snapshot_dir();
      through = man->applied_through_op_id_;
      auto d = vf::slurp(fs::path(man->data_path(*dir)));
      if (d.size() % sizeof(Item) != 0) problem = "checkpoint component truncated";
      state.resize(d.size() / sizeof(Item));
      memcpy(static_cast<void *>(state.data()), d.data(), state.size() * sizeof(Item));
      uint64_t mx = 0;
      for (auto &i : state) mx = std::max(mx, i.id);
      if (mx != through) problem = vf::cat("checkpoint says applied_through=", through, " but its data ends at ", mx);
      m->restore_active_rocksdb_from_snapshot(*man, *dir);
      if (!man->rocksdb_dir_.empty()) {  // the active directory must be exactly the checkpoint's
        std::map<std::string, std::vector<char>> a, b;
        auto src = man->rocksdb_path(*dir);
        if (!fs::exists(src)) problem = "checkpoint database missing";
        else {
          for (auto &e : fs::recursive_directory_iterator(src)) if (e.is_regular_file()) a[fs::relative(e.path(), src)] = vf::slurp(e.path());
          auto act = root / "db" / "live";
          if (fs::exists(act)) for (auto &e : fs::recursive_directory_iterator(act)) if (e.is_regular_file()) b[fs::relative(e.path(), act)] = vf::slurp(e.path());
          if (a != b) problem = vf::cat("restored database differs from the checkpoint's: ", b.size(), " vs ", a.size(), " files");
          if (a["sub/CURRENT"] != std::vector<char>(8, static_cast<char>('a' + through % 26))) problem = "checkpoint database is not the manifest's";
        }
      }
    }
    uint64_t mx = 0;
    for (auto &r : m->replayable_records(through, &mx)) {
      uint64_t tag = 0;
      memcpy(&tag, r.payload_.data(), std::min<size_t>(8, r.payload_.size()));
      state.push_back({r.op_id_, tag});
      if (r.op_id_ <= through) problem = "replayed an operation the checkpoint covers";
    }
    next = m->next_operation_id();
    uint64_t top = std::max(mx, through);
    for (auto &i : state) top = std::max(top, i.id);
    if (next <= top) problem = vf::cat("next operation id ", next, " is not above ", top, " (through ", through, ")");
  }
  void op(uint64_t tag, Shared *sh, bool abandon = false) {
    uint64_t id = next++;
    std::vector<char> p(8 + tag % 50, 'p');
    memcpy(p.data(), &tag, 8);
    sh->started_tag[sh->n_started] = tag;
    sh->n_started++;
    sh->inflight_id = id;
    sh->inflight_tag = tag;
    m->append_prepare(WalRecord{.op_id_ = id, .mutation_type_ = MutationType::kInsert, .payload_ = p});
    sh->prepared_max = std::max<uint64_t>(sh->prepared_max.load(), id);
    if (abandon) return;
    m->append_commit(id, MutationType::kInsert);
    state.push_back({id, tag});
    uint32_t k = sh->n_acked;
    sh->acked_id[k] = id;
    sh->acked_tag[k] = tag;
    sh->n_acked = k + 1;
    sh->inflight_id = 0;
  }
  void checkpoint(Shared *sh) {
    sh->prepared_max = 0;  // from here on the log that names uncommitted ids may be gone
    auto dir = m->create_snapshot_dir();
    put(dir / "state.bin", state.data(), state.size() * sizeof(Item));
    uint64_t through = next - 1;
    for (auto &i : state) through = std::max<uint64_t>(0, i.id);
    fs::create_directories(dir / "rocks" / "sub");
    std::vector<char> c(8, static_cast<char>('a' + through % 26));
    put(dir / "rocks" / "sub" / "CURRENT", c.data(), c.size());
    put(dir / "rocks" / vf::cat("sst", through), c.data(), 3);
    SnapshotManifest man;
    man.snapshot_id_ = dir.filename().string();
    man.reason_ = "test";
    man.applied_through_op_id_ = through;
    man.created_unix_ms_ = SnapshotManifest::current_unix_ms();
    man.data_file_ = "state.bin";
    man.rocksdb_dir_ = "rocks";
    m->publish_snapshot(man, dir);
    sh->checkpoints++;
  }
};
// script: per session a string of 'o' (operation) and 'c' (checkpoint)
using Script = std::vector<std::string>;
static void play(const fs::path &root, const Script &s, Shared *sh, bool faults, uint64_t tag0) {
  uint64_t tag = tag0;
  for (auto &session : s) {
    try {
      Client c(root);
      if (!c.problem.empty()) { sh->bad_state++; snprintf(sh->note, sizeof sh->note, "%s", c.problem.c_str()); }
      if (c.problem.empty() && c.next <= sh->prepared_max) { sh->bad_state++; snprintf(sh->note, sizeof sh->note, "next operation id %lu although %lu is in the log, prepared", (unsigned long)c.next, (unsigned long)sh->prepared_max.load()); }
      for (char x : session) {
        try {
          if (x == 'o') c.op(++tag, sh);
          else if (x == 'a') { c.op(++tag, sh, true); sh->inflight_id = 0; sh->abandoned++; break; }  // this client dies before the commit
          else c.checkpoint(sh);
        } catch (const std::exception &e) {
          if (!faults) throw;
          (x == 'o' ? sh->op_failures : sh->checkpoint_failures)++;
          if (x == 'o') break;  // outcome unknown to this client: it restarts
        }
      }
    } catch (const std::exception &) {
      if (!faults) throw;
    }
  }
}
static Script rnd_script(Rng &r) {
  Script s;
  for (int i = 0; i < 2 + static_cast<int>(r.below(2)); ++i) {
    std::string t;
    for (int k = 0; k < 3 + static_cast<int>(r.below(5)); ++k) t += (!t.empty() && r.chance(0.4)) ? 'c' : 'o';
    s.push_back(t);
  }
  if (r.chance(0.7)) s[r.below(s.size())] += "occ";
  if (r.chance(0.6)) s[r.below(s.size())] += "a";
  return s;
}
static std::string str(const Script &s) { std::string o; for (auto &x : s) o += x + "|"; return o; }

static void judge(Client &c, Shared *sh, bool exact_tail, const std::string &why, bool ids_survive = true) {
  VF_CHECK(c.problem.empty(), "ckpt:state", why, ": ", c.problem);
  std::vector<Item> want;
  for (uint32_t i = 0; i < sh->n_acked; ++i) want.push_back({sh->acked_id[i], sh->acked_tag[i]});
  if (exact_tail) {
    auto w2 = want;
    w2.push_back({sh->inflight_id, sh->inflight_tag});
    VF_CHECK(c.state == want || (sh->inflight_id && c.state == w2), "ckpt:history", why, ": recovered [", list(c.state), "] acknowledged [", list(want), "] in flight ", sh->inflight_id.load());
  } else {  // failed calls: everything acknowledged is there once, nothing else but reported failures
    std::map<uint64_t, int> n;
    for (auto &i : c.state) n[i.tag]++;
    for (auto &i : want) VF_CHECK(n[i.tag] == 1, "ckpt:acked-lost", why, ": acknowledged op ", i.id, " present ", n[i.tag], " times; recovered [", list(c.state), "]");
    for (auto &[t, k] : n) {
      if (!k) continue;
      bool started = false;
      for (uint32_t i = 0; i < sh->n_started; ++i) started |= sh->started_tag[i] == t;
      VF_CHECK(k == 1 && started, "ckpt:invented", why, ": tag ", t, " present ", k, " times");
    }
  }
  if (ids_survive) VF_CHECK(c.next > sh->prepared_max, "ckpt:id-reuse", why, ": next id ", c.next, " although ", sh->prepared_max.load(), " is in the log, prepared");
  for (auto &i : want) VF_CHECK(c.next > i.id, "ckpt:id-reuse", why, ": next id ", c.next, " after id ", i.id);
}

static void clean(Shared *sh) {
  vf::cases("ckpt-history", vf::tiered(250, 5000), [&](uint64_t ci, Rng &r) {
    memset(static_cast<void *>(sh), 0, sizeof *sh);
    g_clock_mode = static_cast<int>(ci % 4);
    vf::Tmp t("r");
    Script s;
    for (int i = 0; i < 3; ++i) for (auto &x : rnd_script(r)) s.push_back(x);
    play(t.p, s, sh, false, 0);
    VF_CHECK(sh->bad_state == 0, "ckpt:state", "clock mode ", g_clock_mode, " script ", str(s), ": ", sh->note);
    Client c(t.p);
    judge(c, sh, true, vf::cat("clock mode ", g_clock_mode, " script ", str(s)));
    // unique ids
    std::set<uint64_t> u;
    for (uint32_t i = 0; i < sh->n_acked; ++i) VF_CHECK(u.insert(sh->acked_id[i]).second, "ckpt:id-reuse", "id ", sh->acked_id[i], " handed out twice");
    vf::eval();
    vf::count("checkpoints", sh->checkpoints);
    vf::count("operations", sh->n_acked);
    vf::count("abandoned_prepares", sh->abandoned);
    vf::Hash h;
    h.add(str(s)).add(g_clock_mode);
    if (sh->checkpoints) vf::distinct(h.get());
    vf::sample(vf::cat("script ", str(s), " clock ", g_clock_mode));
    g_clock_mode = 0;
  });
}

static void faults(Shared *sh, crashfs::Mode mode, const char *name) {
  vf::cases(name, vf::tiered(8, 60), [&](uint64_t ci, Rng &r) {
    Script s = rnd_script(r);
    int clock = static_cast<int>(ci % 4);
    long total = 0;
    bool fail_mode = mode == crashfs::FAIL || mode == crashfs::SHORT;
    for (long target = -1; target < (target < 0 ? 1 : total); ++target) {
      vf::Tmp t("f");
      memset(static_cast<void *>(sh), 0, sizeof *sh);
      pid_t pid = fork();
      if (pid == 0) {
        g_clock_mode = clock;
        int rc = 0;
        crashfs::arm(target < 0 ? crashfs::COUNT : mode, t.s(), target, (target & 1) ? ENOSPC : EIO);
        try { play(t.p, s, sh, fail_mode, 0); } catch (const std::exception &e) { snprintf(sh->note, sizeof sh->note, "%s", e.what()); rc = 3; }
        sh->calls = crashfs::disarm();
        _exit(rc);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      if (target < 0) { total = sh->calls; vf::count("fault_points", static_cast<uint64_t>(total)); }
      bool died = WIFEXITED(st) && WEXITSTATUS(st) == 137;
      if (died) vf::count("deaths");
      auto why = vf::cat(name, " call ", target, "/", total, " script ", str(s), " clock ", clock);
      VF_CHECK(died || (WIFEXITED(st) && WEXITSTATUS(st) == 0), "ckpt:fault-crash", why, ": child status ", st, " ", sh->note);
      VF_CHECK(sh->bad_state == 0, "ckpt:state", why, " inside the run: ", sh->note);
      vf::count("reported_failures", sh->op_failures + sh->checkpoint_failures);
      vf::eval();
      {
        Client c(t.p);
        judge(c, sh, !fail_mode, why, mode != crashfs::POWER && mode != crashfs::RENAMES);
      }
      // recovery interrupted, too: die at some call of a recovery, then recover again
      if (died && target % 3 == 0) {
        pid = fork();
        if (pid == 0) {
          crashfs::arm(crashfs::KILL, t.s(), static_cast<long>(r.below(12)));
          try { Client c(t.p); } catch (...) { _exit(4); }
          _exit(0);
        }
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 137) vf::count("deaths_in_recovery");
        Client c(t.p);
        judge(c, sh, true, why + " after an interrupted recovery", mode != crashfs::POWER && mode != crashfs::RENAMES);
      }
      {  // life goes on: new operations, a checkpoint, a restart
        Client c(t.p);
        auto base = c.state;
        try {
          uint64_t tag = 100000;
          for (int k = 0; k < 2; ++k) { c.op(++tag, sh); base.push_back({c.next - 1, tag}); }
          if (target % 2) c.checkpoint(sh);
          c.op(++tag, sh); base.push_back({c.next - 1, tag});
        } catch (const std::exception &e) {
          vf::violation("ckpt:stuck", vf::cat(why, ": cannot continue after restart: ", e.what()));
        }
        Client d(t.p);
        VF_CHECK(d.problem.empty(), "ckpt:state", why, " continued: ", d.problem);
        VF_CHECK(d.state == base, "ckpt:history", why, " continued: recovered [", list(d.state), "] want [", list(base), "]");
      }
      vf::Hash h;
      h.add(std::string(name)).add(target).add(str(s)).add(clock);
      if (target >= 0) vf::distinct(h.get());
    }
    vf::sample(vf::cat(name, ": script ", str(s), " clock ", clock, ": every one of ", total, " system calls"));
  });
}

static void manifest() {
  vf::cases("manifest", vf::tiered(20000, 300000), [](uint64_t, Rng &r) {
    auto word = [&](bool empty_ok) {
      static const std::string al = "abcXYZ0123456789-_./ :=#";
      std::string s;
      size_t n = r.below(12) + (empty_ok ? 0 : 1);
      for (size_t i = 0; i < n; ++i) s += al[r.below(al.size())];
      return s;
    };
    SnapshotManifest m;
    m.snapshot_id_ = word(false);
    m.reason_ = word(true);
    m.applied_through_op_id_ = r.chance(0.3) ? ~0ULL : r.next() >> r.below(64);
    m.created_unix_ms_ = r.next() >> r.below(64);
    m.graph_file_ = word(true);
    m.data_file_ = word(true);
    m.quant_file_ = word(true);
    m.rocksdb_dir_ = word(true);
    auto raw = m.serialize();
    auto d = SnapshotManifest::deserialize(raw);
    VF_CHECK(d && d->snapshot_id_ == m.snapshot_id_ && d->reason_ == m.reason_ && d->applied_through_op_id_ == m.applied_through_op_id_ && d->created_unix_ms_ == m.created_unix_ms_ && d->graph_file_ == m.graph_file_ && d->data_file_ == m.data_file_ && d->quant_file_ == m.quant_file_ && d->rocksdb_dir_ == m.rocksdb_dir_ && d->format_version_ == m.format_version_,
             "manifest:roundtrip", "manifest does not round-trip: ", raw);
    // hostile bytes: no crash, and never a manifest without an id
    for (int k = 0; k < 3; ++k) raw[r.below(raw.size())] = static_cast<char>(r.next());
    auto e = SnapshotManifest::deserialize(raw);
    VF_CHECK(!e || !e->snapshot_id_.empty(), "manifest:hostile", "manifest without id accepted");
    vf::eval();
  });
}

int main(int argc, char **argv) {
  vf::init(argc, argv);
  auto *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  auto &m = vf::ctx().mode;
  if (m == "hist") { clean(sh); manifest(); }
  else if (m == "kill") faults(sh, crashfs::KILL, "kill");
  else if (m == "torn") faults(sh, crashfs::TORN, "torn");
  else if (m == "power") { faults(sh, crashfs::POWER, "power"); faults(sh, crashfs::RENAMES, "power and renames"); }
  else if (m == "fail") { faults(sh, crashfs::FAIL, "fail"); faults(sh, crashfs::SHORT, "short"); }
  return vf::finish();
}
