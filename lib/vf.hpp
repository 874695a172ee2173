// Common support for the monitoring harnesses: arguments, seeded randomness, counters, violations, result file.
#pragma once
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {
namespace fs = std::filesystem;

inline uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed ^ 0xA5A5A5A5DEADBEEFULL)) {}
  uint64_t next() { return mix(s++ * 0x2545F4914F6CDD1DULL + 0x1234567); }
  uint64_t operator()() { return next(); }
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ULL; }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1))); }
  double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  double gauss() {
    double a = unit(), b = unit();
    if (a < 1e-300) a = 1e-300;
    return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
  }
  template <class C>
  auto &pick(C &c) { return c[below(c.size())]; }
};

struct Hash {
  uint64_t h = 1469598103934665603ULL;
  Hash &add(const void *p, size_t n) {
    auto *c = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    return *this;
  }
  Hash &add(const std::string &s) { uint64_t n = s.size(); add(&n, 8); return add(s.data(), s.size()); }
  template <class T>
    requires std::is_arithmetic_v<T>
  Hash &add(T v) { return add(&v, sizeof v); }
  uint64_t get() const { return mix(h); }
};

struct Ctx {
  uint64_t seed = 1;
  bool thorough = false;
  int shard = 0, shards = 1;
  std::string out, scratch, mode;
  int64_t only_case = -1;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  struct V { std::string key, msg, where; };
  std::vector<V> violations;
  std::map<std::string, int> vcount;
  std::string current;
  std::recursive_mutex mu;
};
inline Ctx &ctx() { static Ctx c; return c; }

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}
inline void write_out() {
  auto &c = ctx();
  std::lock_guard<std::recursive_mutex> g(c.mu);
  if (c.out.empty()) return;
  std::ofstream f(c.out + ".tmp", std::ios::trunc);
  f << "{\"counters\":{";
  bool first = true;
  for (auto &[k, v] : c.counters) { f << (first ? "" : ",") << '"' << jesc(k) << "\":" << v; first = false; }
  f << "},\"samples\":[";
  for (size_t i = 0; i < c.samples.size(); ++i) f << (i ? "," : "") << '"' << jesc(c.samples[i]) << '"';
  f << "],\"violations\":[";
  for (size_t i = 0; i < c.violations.size(); ++i) {
    auto &v = c.violations[i];
    f << (i ? "," : "") << "{\"key\":\"" << jesc(v.key) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\"}";
  }
  f << "],\"current\":\"" << jesc(c.current) << "\"}\n";
  f.close();
  {
    std::ofstream h(c.out + ".hash", std::ios::binary | std::ios::trunc);
    for (uint64_t x : c.distinct) h.write(reinterpret_cast<const char *>(&x), 8);
  }
  std::rename((c.out + ".tmp").c_str(), c.out.c_str());
}
inline void count(const char *k, uint64_t n = 1) {
  auto &c = ctx();
  std::lock_guard<std::recursive_mutex> g(c.mu);
  c.counters[k] += n;
}
inline void eval(uint64_t n = 1) { count("evaluations", n); }
inline void distinct(uint64_t h) {
  auto &c = ctx();
  std::lock_guard<std::recursive_mutex> g(c.mu);
  c.distinct.insert(h);
}
inline void sample(const std::string &s) {
  auto &c = ctx();
  std::lock_guard<std::recursive_mutex> g(c.mu);
  if (c.samples.size() < 4) c.samples.push_back(s.substr(0, 600));
}
inline void progress(const std::string &s) {
  auto &c = ctx();
  std::lock_guard<std::recursive_mutex> g(c.mu);
  c.current = s;
}
inline void violation(const std::string &key, const std::string &msg) {
  auto &c = ctx();
  std::lock_guard<std::recursive_mutex> g(c.mu);
  c.counters["violations"]++;
  if (c.vcount[key]++ < 3 && c.violations.size() < 60) {
    c.violations.push_back({key, msg.substr(0, 1500), c.current});
    fprintf(stderr, "VF-VIOLATION %s: %s [%s]\n", key.c_str(), msg.c_str(), c.current.c_str());
    write_out();
  }
}
inline std::string cat_() { return {}; }
template <class... A>
std::string cat(const A &...a) {
  std::ostringstream o;
  o.precision(9);
  (o << ... << a);
  return o.str();
}
#define VF_CHECK(cond, key, ...)                             \
  do {                                                       \
    vf::count("checks");                                     \
    if (!(cond)) vf::violation((key), vf::cat(__VA_ARGS__)); \
  } while (0)

struct Tmp {  // scratch directory, removed on destruction
  fs::path p;
  explicit Tmp(const std::string &tag = "t") {
    static std::atomic<uint64_t> n{0};
    p = fs::path(ctx().scratch) / cat(tag, "_", getpid(), "_", n++);
    fs::create_directories(p);
  }
  ~Tmp() { std::error_code ec; fs::remove_all(p, ec); }
  std::string s(const std::string &x = "") const { return x.empty() ? p.string() : (p / x).string(); }
};
inline std::vector<char> slurp(const fs::path &p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
inline void spit(const fs::path &p, const std::vector<char> &d) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(d.data(), static_cast<std::streamsize>(d.size()));
}
inline uint64_t tiered(uint64_t q, uint64_t t) { return ctx().thorough ? t : q; }
// Case loop: cases [0,total) split over the shards; every case has its own rng.
inline void cases(const char *name, uint64_t total, const std::function<void(uint64_t, Rng &)> &fn) {
  auto &c = ctx();
  for (uint64_t i = 0; i < total; ++i) {
    if (c.shards > 1 && static_cast<int>(i % c.shards) != c.shard) continue;
    if (c.only_case >= 0 && static_cast<uint64_t>(c.only_case) != i) continue;
    Hash h;
    h.add(std::string(name)).add(c.seed).add(i);
    Rng r(h.get());
    progress(cat(name, " case=", i, " seed=", c.seed));
    try {
      fn(i, r);
    } catch (const std::exception &e) {
      violation(cat("exception:", name), cat("uncaught exception: ", e.what()));
    }
  }
}
inline void on_term() {
  fprintf(stderr, "VF-TERMINATE during [%s]\n", ctx().current.c_str());
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); } catch (const std::exception &x) { fprintf(stderr, "VF-TERMINATE what: %s\n", x.what()); } catch (...) {}
  }
  write_out();
  _exit(98);
}
inline void on_sig(int s) {
  char b[160];
  int n = snprintf(b, sizeof b, "VF-SIGNAL %d during [%.100s]\n", s, ctx().current.c_str());
  if (n > 0 && write(2, b, static_cast<size_t>(n)) < 0) {}
  _exit(97);
}
inline void init(int argc, char **argv) {
  auto &c = ctx();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") c.seed = std::stoull(val());
    else if (a == "--tier") c.thorough = val() == "thorough";
    else if (a == "--shard") { auto v = val(); sscanf(v.c_str(), "%d/%d", &c.shard, &c.shards); }
    else if (a == "--out") c.out = val();
    else if (a == "--scratch") c.scratch = val();
    else if (a == "--mode") c.mode = val();
    else if (a == "--case") c.only_case = std::stoll(val());
  }
  if (c.scratch.empty()) c.scratch = "/tmp/vf_scratch";
  fs::create_directories(c.scratch);
  std::set_terminate(on_term);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, on_sig);
#endif
}
inline int finish() {
  progress("done");
  ctx().counters["finished"] = 1;
  write_out();
  return ctx().violations.empty() ? 0 : 1;
}
}  // namespace vf
