// V01: every kernel against its definition in double precision; inputs lie between inaccessible pages.
#include <sys/mman.h>
#include <array>
#include "vf.hpp"
#include "simd/cpu_features.hpp"
#include "simd/distance_ip.hpp"
#include "simd/distance_l2.hpp"
#include "simd/fht.hpp"
#include "simd/laser_dispatch.hpp"
#include "index/graph/laser/utils/rotator.hpp"
#include "utils/rabitq_utils/fastscan.hpp"
#include "utils/rabitq_utils/lut.hpp"
#include "utils/rabitq_utils/rotator.hpp"

using namespace vf;

// A block of memory whose end (or start) touches an inaccessible page.
struct Guarded {
  char *base = nullptr;
  size_t map = 0, bytes;
  char *p;
  Guarded(size_t n, bool at_end, size_t shift = 0) : bytes(n) {
    const size_t pg = 4096;
    size_t body = (n + shift + pg - 1) / pg * pg;
    if (!body) body = pg;
    map = body + 2 * pg;
    base = static_cast<char *>(mmap(nullptr, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(base, pg, PROT_NONE);
    mprotect(base + pg + body, pg, PROT_NONE);
    p = at_end ? base + pg + body - n : base + pg + shift;
    memset(base + pg, 0x7B, body);  // what lies around the input must not matter
  }
  ~Guarded() { munmap(base, map); }
  Guarded(const Guarded &) = delete;
  template <class T>
  T *as() { return reinterpret_cast<T *>(p); }
};

static bool has512() {
#if defined(__x86_64__)
  return __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512bw");
#else
  return false;
#endif
}
static bool has2() { return __builtin_cpu_supports("avx2") && __builtin_cpu_supports("fma"); }

static size_t pick_dim(Rng &r, uint64_t c) {
  if (c % 3 == 0) return 1 + (c / 3) % 320;             // every small dimension
  if (c % 3 == 1) return 1 + r.below(150);
  static const size_t big[] = {384, 512, 513, 768, 960, 1000, 1023, 1024, 1025, 1536, 2047, 2048, 3072};
  return big[r.below(std::size(big))];
}
static void fill_floats(Rng &r, float *x, size_t n, int kind) {
  for (size_t i = 0; i < n; ++i) {
    double v = 0;
    switch (kind % 7) {
      case 0: v = r.gauss(); break;
      case 1: v = r.gauss() * 1e6; break;
      case 2: v = r.gauss() * 1e-6; break;
      case 3: v = static_cast<double>(r.range(-9, 9)); break;
      case 4: v = r.chance(0.05) ? r.gauss() * 1000 : 0.0; break;
      case 5: v = 1.0 + r.gauss() * 1e-4; break;
      case 6: v = i + 1 == n ? 3.0 : (i == 0 ? 2.0 : (r.chance(0.02) ? 1.0 : 0.0)); break;
    }
    x[i] = static_cast<float>(v);
  }
}
struct Ref { double v = 0, mag = 0; };

static void judge(const char *what, double got, const Ref &ref, size_t dim, double unit = 1.2e-7) {
  eval();
  double tol = (static_cast<double>(dim) * 0.5 + 16) * unit * ref.mag + 1e-33;
  VF_CHECK(std::fabs(got - ref.v) <= tol, cat("value:", what), what, " dim=", dim, " got ", got, " expected ", ref.v, " tolerance ", tol);
}

static void float_kernels(uint64_t c, Rng &r) {
  size_t dim = pick_dim(r, c);
  bool at_end = r.chance(0.6);
  Guarded gx(dim * 4, at_end, 4 * r.below(16)), gy(dim * 4, r.chance(0.6), 4 * r.below(16));
  float *x = gx.as<float>(), *y = gy.as<float>();
  int kind = static_cast<int>(r.below(8));
  fill_floats(r, x, dim, kind);
  fill_floats(r, y, dim, r.chance(0.8) ? kind : static_cast<int>(r.below(7)));
  if (r.chance(0.1)) memcpy(y, x, dim * 4);
  Ref l2, ip, sq;
  for (size_t i = 0; i < dim; ++i) {
    double d = static_cast<double>(x[i]) - y[i];
    l2.v += d * d;
    ip.v -= static_cast<double>(x[i]) * y[i];
    ip.mag += std::fabs(static_cast<double>(x[i]) * y[i]);
    sq.v += static_cast<double>(x[i]) * x[i];
  }
  l2.mag = l2.v;  // each difference is exact to half an ulp, so the error is relative to the sum
  sq.mag = sq.v;
  using namespace alaya::simd;
  distinct(Hash().add(x, dim * 4).add(y, dim * 4).get());
  judge("l2", l2_sqr<float, float>(x, y, dim), l2, dim);
  judge("l2-dispatched", get_l2_sqr_func()(x, y, dim), l2, dim);
  judge("l2-generic", l2_sqr_generic(x, y, dim), l2, dim);
  judge("ip", ip_sqr<float, float>(x, y, dim), ip, dim);
  judge("ip-dispatched", get_ip_sqr_func()(x, y, dim), ip, dim);
  judge("ip-generic", ip_sqr_generic(x, y, dim), ip, dim);
  if (has2()) {
    count("avx2");
    judge("l2-avx2", l2_sqr_avx2(x, y, dim), l2, dim);
    judge("ip-avx2", ip_sqr_avx2(x, y, dim), ip, dim);
  }
  if (has512()) {
    count("avx512");
    judge("l2-avx512", l2_sqr_avx512(x, y, dim), l2, dim);
    judge("ip-avx512", ip_sqr_avx512(x, y, dim), ip, dim);
  }
  // symmetry and identity
  VF_CHECK((l2_sqr<float, float>(x, x, dim) == 0.0F), "identity:l2", "distance of a vector to itself is not 0, dim=", dim);
  {
    Guarded gd(dim * 8, true), ge(dim * 8, true);
    double *dx = gd.as<double>(), *dy = ge.as<double>();
    for (size_t i = 0; i < dim; ++i) dx[i] = x[i], dy[i] = y[i];
    judge("l2-double", l2_sqr<double, double>(dx, dy, dim), l2, dim, 3e-16);
    judge("ip-double", ip_sqr<double, double>(dx, dy, dim), ip, dim, 3e-16);
  }
  {  // byte vectors
    Guarded ga(dim, r.chance(0.5), r.below(64)), gb(dim, r.chance(0.5), r.below(64));
    auto *a = ga.as<uint8_t>(), *b = gb.as<uint8_t>();
    auto *sa = ga.as<int8_t>(), *sb = gb.as<int8_t>();
    for (size_t i = 0; i < dim; ++i) a[i] = static_cast<uint8_t>(r.next()), b[i] = static_cast<uint8_t>(r.next());
    Ref ul, ui, sl, si;
    for (size_t i = 0; i < dim; ++i) {
      double d = static_cast<double>(a[i]) - b[i], e = static_cast<double>(sa[i]) - sb[i];
      ul.v += d * d, sl.v += e * e;
      ui.v -= static_cast<double>(a[i]) * b[i], si.v -= static_cast<double>(sa[i]) * sb[i];
      ui.mag += std::fabs(static_cast<double>(a[i]) * b[i]), si.mag += std::fabs(static_cast<double>(sa[i]) * sb[i]);
    }
    ul.mag = ul.v, sl.mag = sl.v;
    judge("l2-u8", l2_sqr<uint8_t, float>(a, b, dim), ul, dim);
    judge("ip-u8", ip_sqr<uint8_t, float>(a, b, dim), ui, dim);
    judge("l2-i8", l2_sqr<int8_t, float>(sa, sb, dim), sl, dim);
    judge("ip-i8", ip_sqr<int8_t, float>(sa, sb, dim), si, dim);
  }
  {  // LASER's norm, range and rotation loops
    namespace L = alaya::laser::simd;
    judge("laser-norm", L::get_l2_sqr_single_func()(x, dim), sq, dim);
    float lo = x[0], hi = x[0];
    for (size_t i = 0; i < dim; ++i) lo = std::min(lo, x[i]), hi = std::max(hi, x[i]);
    auto range = [&](const char *w, L::DataRangeFn f) {
      float a = 0, b = 0;
      f(x, dim, a, b);
      eval();
      VF_CHECK(a == lo && b == hi, cat("value:", w), w, " dim=", dim, " range [", a, ",", b, "] expected [", lo, ",", hi, "]");
    };
    range("laser-range", L::get_data_range_func());
    auto rot = [&](const char *w, auto f) {
      Guarded gz(dim * 4, true);
      float *z = gz.as<float>();
      size_t done = f(x, y, dim, z);
      eval();
      VF_CHECK(done <= dim, cat("value:", w), w, " handled ", done, " of ", dim);
      for (size_t i = 0; i < done && i < dim; ++i)
        VF_CHECK(z[i] == x[i] * y[i], cat("value:", w), w, " dim=", dim, " product ", i, " is ", z[i]);
      for (size_t i = done; i < dim; ++i)
        VF_CHECK(memcmp(z + i, "\x7B\x7B\x7B\x7B", 4) == 0, cat("value:", w), w, " dim=", dim, " wrote beyond the count it returned");
    };
    rot("laser-rotate", L::get_rotate_loop_func());
    namespace D = alaya::laser::simd::detail;
    judge("laser-norm-generic", D::l2_sqr_single_generic(x, dim), sq, dim);
    range("laser-range-generic", D::data_range_generic);
    rot("laser-rotate-generic", D::rotate_loop_generic);
    if (has2()) {
      judge("laser-norm-avx2", D::l2_sqr_single_avx2(x, dim), sq, dim);
      range("laser-range-avx2", D::data_range_avx2);
      rot("laser-rotate-avx2", D::rotate_loop_avx2);
    }
    if (has512()) {
      judge("laser-norm-avx512", D::l2_sqr_single_avx512(x, dim), sq, dim);
      range("laser-range-avx512", D::data_range_avx512);
      rot("laser-rotate-avx512", D::rotate_loop_avx512);
    }
  }
}

static void quant_kernels(uint64_t c, Rng &r) {
  size_t dim = pick_dim(r, c);
  Guarded g8x(dim, r.chance(0.6), r.below(64)), g8y(dim, r.chance(0.6), r.below(64));
  size_t nb = (dim + 1) / 2;
  Guarded g4x(nb, r.chance(0.6), r.below(64)), g4y(nb, r.chance(0.6), r.below(64));
  Guarded gmin(dim * 4, r.chance(0.6), 4 * r.below(16)), gmax(dim * 4, r.chance(0.6), 4 * r.below(16));
  float *mn = gmin.as<float>(), *mx = gmax.as<float>();
  auto *a8 = g8x.as<uint8_t>(), *b8 = g8y.as<uint8_t>(), *a4 = g4x.as<uint8_t>(), *b4 = g4y.as<uint8_t>();
  int kind = static_cast<int>(r.below(4));
  for (size_t i = 0; i < dim; ++i) {
    mn[i] = static_cast<float>(r.gauss() * (kind == 1 ? 100 : 1));
    mx[i] = kind == 2 && r.chance(0.2) ? mn[i] : mn[i] + static_cast<float>(r.unit() * 3 + 0.01);
    if (kind == 3) mn[i] = 0, mx[i] = 1;
    a8[i] = r.chance(0.1) ? (r.chance(0.5) ? 255 : 0) : static_cast<uint8_t>(r.next());
    b8[i] = r.chance(0.1) ? (r.chance(0.5) ? 255 : 0) : static_cast<uint8_t>(r.next());
  }
  for (size_t i = 0; i < nb; ++i) a4[i] = static_cast<uint8_t>(r.next()), b4[i] = static_cast<uint8_t>(r.next());
  auto nib = [](const uint8_t *v, size_t i) { return static_cast<double>(i % 2 ? v[i / 2] >> 4 : v[i / 2] & 15); };
  Ref l8, i8, l4, i4;
  for (size_t i = 0; i < dim; ++i) {
    double w = static_cast<double>(mx[i]) - mn[i], s8 = w / 255, s4 = w / 15;
    double wm = std::fabs(mx[i]) + std::fabs(mn[i]);
    double d = (static_cast<double>(a8[i]) - b8[i]) * s8;
    l8.v += d * d;
    double m = std::fabs(static_cast<double>(a8[i]) - b8[i]) / 255;
    l8.mag += d * d + m * m * w * wm * 1.0;
    double p = mn[i] + a8[i] * s8, q = mn[i] + b8[i] * s8;
    i8.v -= p * q;
    i8.mag += wm * wm;
    d = (nib(a4, i) - nib(b4, i)) * s4;
    m = std::fabs(nib(a4, i) - nib(b4, i)) / 15;
    l4.v += d * d;
    l4.mag += d * d + m * m * w * wm;
    p = mn[i] + nib(a4, i) * s4, q = mn[i] + nib(b4, i) * s4;
    i4.v -= p * q;
    i4.mag += wm * wm;
  }
  using namespace alaya::simd;
  distinct(Hash().add(a8, dim).add(b8, dim).add(mn, 4 * dim).get());
  judge("sq8-l2", l2_sqr_sq8<float, float>(a8, b8, dim, mn, mx), l8, dim);
  judge("sq8-ip", ip_sqr_sq8<float, float>(a8, b8, dim, mn, mx), i8, dim);
  judge("sq4-l2", l2_sqr_sq4<float, float>(a4, b4, dim, mn, mx), l4, dim);
  judge("sq4-ip", ip_sqr_sq4<float, float>(a4, b4, dim, mn, mx), i4, dim);
  judge("sq8-l2-generic", l2_sqr_sq8_generic(a8, b8, dim, mn, mx), l8, dim);
  judge("sq8-ip-generic", ip_sqr_sq8_generic(a8, b8, dim, mn, mx), i8, dim);
  judge("sq4-l2-generic", l2_sqr_sq4_generic(a4, b4, dim, mn, mx), l4, dim);
  judge("sq4-ip-generic", ip_sqr_sq4_generic(a4, b4, dim, mn, mx), i4, dim);
  if (has2()) {
    count("avx2");
    judge("sq8-l2-avx2", l2_sqr_sq8_avx2(a8, b8, dim, mn, mx), l8, dim);
    judge("sq8-ip-avx2", ip_sqr_sq8_avx2(a8, b8, dim, mn, mx), i8, dim);
    judge("sq4-l2-avx2", l2_sqr_sq4_avx2(a4, b4, dim, mn, mx), l4, dim);
    judge("sq4-ip-avx2", ip_sqr_sq4_avx2(a4, b4, dim, mn, mx), i4, dim);
  }
  if (has512()) {
    count("avx512");
    judge("sq8-l2-avx512", l2_sqr_sq8_avx512(a8, b8, dim, mn, mx), l8, dim);
    judge("sq8-ip-avx512", ip_sqr_sq8_avx512(a8, b8, dim, mn, mx), i8, dim);
    judge("sq4-l2-avx512", l2_sqr_sq4_avx512(a4, b4, dim, mn, mx), l4, dim);
    judge("sq4-ip-avx512", ip_sqr_sq4_avx512(a4, b4, dim, mn, mx), i4, dim);
  }
}

static void wht(std::vector<double> &v) {
  for (size_t h = 1; h < v.size(); h *= 2)
    for (size_t i = 0; i < v.size(); i += 2 * h)
      for (size_t j = i; j < i + h; ++j) {
        double a = v[j], b = v[j + h];
        v[j] = a + b, v[j + h] = a - b;
      }
}
static void transforms(uint64_t c, Rng &r) {
  using namespace alaya::simd;
  int lg = 6 + static_cast<int>(c % 6);
  size_t n = size_t{1} << lg;
  std::vector<float> in(n);
  fill_floats(r, in.data(), n, static_cast<int>(r.below(7)));
  std::vector<double> ref(in.begin(), in.end());
  wht(ref);
  double mag = 0;
  for (float f : in) mag += std::fabs(f);
  distinct(Hash().add(in.data(), n * 4).get());
  auto run = [&](const char *what, auto f) {
    Guarded g(n * 4, r.chance(0.5), 4 * r.below(8));
    float *x = g.as<float>();
    memcpy(x, in.data(), n * 4);
    f(x);
    eval();
    for (size_t i = 0; i < n; ++i)
      if (!(std::fabs(x[i] - ref[i]) <= mag * 1.2e-7 * (lg + 4) + 1e-33)) {
        VF_CHECK(false, cat("value:", what), what, " n=", n, " element ", i, " is ", x[i], " expected ", ref[i]);
        break;
      }
    count("checks");
  };
  run("fht", [&](float *x) { VF_CHECK(alaya::simd::fht_float(x, lg) == 0, "value:fht-return", "fht_float refused log_n=", lg); });
  switch (lg) {
#define ONE(k)                                                                   \
  case k:                                                                        \
    run("fht-dispatched", alaya::simd::helper_float_##k);                                     \
    run("fht-generic", fwht_generic_template<k>);                   \
    if (has2()) run("fht-avx2", helper_float_##k##_avx2), count("avx2");         \
    if (has512()) run("fht-avx512", helper_float_##k##_avx512), count("avx512"); \
    break;
    ONE(6) ONE(7) ONE(8) ONE(9) ONE(10) ONE(11)
  }
  float dummy[2] = {1, 2};
  VF_CHECK(alaya::simd::fht_float(dummy, static_cast<int>(std::array<int, 6>{0, 1, 5, 12, -1, 40}[r.below(6)])) == 1 && dummy[0] == 1 && dummy[1] == 2,
           "value:fht-return", "an unsupported length was not refused");
  // Rotations keep lengths and angles: LASER's (padded to a power of two) and RaBitQ's.
  auto isometry = [&](const char *what, size_t dim, size_t padded, auto rotate) {
    std::vector<float> a(dim), b(dim), s(dim);
    int kind = static_cast<int>(r.below(2)) * 5;
    fill_floats(r, a.data(), dim, kind), fill_floats(r, b.data(), dim, kind);
    float k = static_cast<float>(r.gauss());
    for (size_t i = 0; i < dim; ++i) s[i] = a[i] + k * b[i];
    Guarded ga(padded * 4, true), gb(padded * 4, true), gs(padded * 4, true), gin(dim * 4, true);
    float *ra = ga.as<float>(), *rb = gb.as<float>(), *rs = gs.as<float>();
    memcpy(gin.p, a.data(), dim * 4);
    rotate(gin.as<float>(), ra), rotate(b.data(), rb), rotate(s.data(), rs);
    double aa = 0, ab = 0, bb = 0, raa = 0, rab = 0, rbb = 0, lin = 0;
    for (size_t i = 0; i < dim; ++i) aa += double(a[i]) * a[i], bb += double(b[i]) * b[i], ab += double(a[i]) * b[i];
    for (size_t i = 0; i < padded; ++i) {
      raa += double(ra[i]) * ra[i], rbb += double(rb[i]) * rb[i], rab += double(ra[i]) * rb[i];
      lin = std::max(lin, std::fabs(double(rs[i]) - ra[i] - k * rb[i]));
    }
    double tol = 2e-5 * std::sqrt(aa * bb) + 1e-30;
    eval();
    count("rotations");
    VF_CHECK(std::fabs(aa - raa) <= 2e-5 * aa && std::fabs(bb - rbb) <= 2e-5 * bb && std::fabs(ab - rab) <= tol, cat("rotation:", what), what,
             " dim=", dim, " does not keep lengths: ", aa, "->", raa, " ", bb, "->", rbb, " ", ab, "->", rab);
    VF_CHECK(lin <= 1e-4 * (std::sqrt(aa) + std::fabs(k) * std::sqrt(bb)), cat("rotation:", what), what, " dim=", dim, " is not linear: ", lin);
  };
  {
    size_t dim = 33 + r.below(2016);
    if (r.chance(0.3)) dim = size_t{64} << r.below(6);
    alaya::laser::FHTRotator rot(dim, 1 + r.next() % 1000);
    size_t padded = 1;
    while (padded < dim) padded *= 2;
    if (padded >= 64) isometry("laser-rotator", dim, padded, [&](const float *s, float *d) { rot.rotate(s, d); });
  }
  for (auto type : {alaya::RotatorType::FhtKacRotator, alaya::RotatorType::MatrixRotator}) {
    bool matrix = type == alaya::RotatorType::MatrixRotator;
    if (matrix && c % 8) continue;
    size_t dim = matrix ? 2 + r.below(200) : 64 + r.below(1500);
    auto rot = alaya::choose_rotator<float>(dim, type);
    isometry(matrix ? "matrix-rotator" : "fht-kac-rotator", dim, rot->size(), [&](const float *s, float *d) { rot->rotate(s, d); });
    // a saved and loaded rotator rotates identically
    if (c % 4 == 0) {
      Tmp t("rot");
      { std::ofstream o(t.s("r"), std::ios::binary); rot->save(o); }
      auto two = alaya::choose_rotator<float>(dim, type);
      { std::ifstream i(t.s("r"), std::ios::binary); two->load(i); }
      std::vector<float> v(dim), a(rot->size()), b(rot->size());
      fill_floats(r, v.data(), dim, 0);
      rot->rotate(v.data(), a.data()), two->rotate(v.data(), b.data());
      VF_CHECK(a == b, "rotation:reload", "a reloaded rotator rotates differently, dim=", dim);
    }
  }
}

static const std::array<int, 16> kOrder = {0, 8, 1, 9, 2, 10, 3, 11, 4, 12, 5, 13, 6, 14, 7, 15};
static void fastscan(uint64_t c, Rng &r) {
  // RaBitQ: packed codes + lookup table give the inner product of every binary code with the query.
  size_t dim = 64 * (1 + r.below(20));
  if (c % 5 == 0) dim = 64 * (1 + c / 5 % 32);
  size_t cols = dim / 8, ncb = dim / 4;
  std::vector<uint8_t> raw(32 * cols);
  for (auto &x : raw) x = static_cast<uint8_t>(r.next());
  size_t num = r.chance(0.3) ? 1 + r.below(32) : 32;
  Guarded graw(num * cols, true), gpk(dim * 4, true);
  memcpy(graw.p, raw.data(), num * cols);
  alaya::fastscan::pack_codes(dim, graw.as<uint8_t>(), num, gpk.as<uint8_t>());
  std::vector<uint8_t> lut(ncb * 16);
  int top = dim <= 1024 ? 255 : 100;
  for (auto &x : lut) x = static_cast<uint8_t>(r.below(top + 1));
  auto nibble = [&](size_t v, size_t cb) -> int {
    if (v >= num) return 0;
    uint8_t byte = raw[v * cols + cb / 2];
    return cb % 2 ? byte & 15 : byte >> 4;
  };
  std::vector<uint32_t> ref(32, 0);
  for (size_t v = 0; v < 32; ++v)
    for (size_t cb = 0; cb < ncb; ++cb) ref[v] += lut[cb * 16 + nibble(v, cb)];
  distinct(Hash().add(raw.data(), raw.size()).add(lut.data(), lut.size()).get());
  Guarded glut(lut.size(), true);
  memcpy(glut.p, lut.data(), lut.size());
  auto acc = [&](const char *what, auto f) {
    alignas(64) uint16_t res[32];
    memset(res, 0xEE, sizeof res);
    f(res);
    eval();
    for (size_t v = 0; v < num; ++v)
      if (res[v] != static_cast<uint16_t>(ref[v])) {
        VF_CHECK(false, cat("value:", what), what, " dim=", dim, " code ", v, " sums to ", res[v], " expected ", ref[v]);
        break;
      }
    count("checks");
  };
  const uint8_t *pk = gpk.as<uint8_t>(), *lt = glut.as<uint8_t>();
  acc("fastscan", [&](uint16_t *o) { alaya::fastscan::accumulate(pk, lt, o, dim); });
  namespace L = alaya::laser::simd;
  acc("laser-accumulate", [&](uint16_t *o) { L::get_accumulate_func()(dim, pk, lt, o); });
  acc("laser-accumulate-generic", [&](uint16_t *o) { L::detail::accumulate_impl_generic(dim, pk, lt, o); });
  if (has2()) acc("laser-accumulate-avx2", [&](uint16_t *o) { L::detail::accumulate_impl_avx2(dim, pk, lt, o); });
  if (has512()) acc("laser-accumulate-avx512", [&](uint16_t *o) { L::detail::accumulate_impl_avx512(dim, pk, lt, o); });
  // estimates
  {
    std::vector<float> fadd(32), fres(32), out(32);
    fill_floats(r, fadd.data(), 32, 0), fill_floats(r, fres.data(), 32, 0);
    float gadd = static_cast<float>(r.gauss()), delta = static_cast<float>(r.unit() * 0.1), bias = static_cast<float>(r.gauss());
    alaya::fastscan::accumulate_and_estimate_distances(pk, lt, fadd.data(), fres.data(), gadd, delta, bias, out.data(), dim);
    eval();
    for (size_t v = 0; v < num; ++v) {
      double inner = double(ref[v]) * delta + bias, e = fres[v] * inner + fadd[v] + gadd;
      double tol = 1e-6 * (std::fabs(fres[v]) * (double(ref[v]) * delta + std::fabs(bias)) + std::fabs(fadd[v]) + std::fabs(gadd));
      VF_CHECK(std::fabs(out[v] - e) <= tol, "value:fastscan-estimate", "dim=", dim, " estimate ", v, " is ", out[v], " expected ", e);
    }
  }
  // float lookup table and its quantization
  {
    std::vector<float> q(dim);
    fill_floats(r, q.data(), dim, static_cast<int>(r.below(2)) * 3);
    alaya::Lut<float> L2(q.data(), dim);
    alignas(64) uint16_t res[32];
    {  // at any dimension: the table is coarse enough for its sums
      alaya::fastscan::accumulate(pk, L2.lut(), res, dim);
      eval();
      for (size_t v = 0; v < num; ++v) {
        double ip = 0;
        for (size_t d = 0; d < dim; ++d)
          if (raw[v * cols + d / 8] >> (7 - d % 8) & 1) ip += q[d];
        double got = double(res[v]) * L2.delta() + L2.sum_vl();
        double tol = L2.delta() * (0.5001 * ncb) + 1e-4 * (std::fabs(L2.sum_vl()) + 1);
        VF_CHECK(std::fabs(got - ip) <= tol, "value:lut", "dim=", dim, " looked up inner product ", got, " true ", ip, " tolerance ", tol);
      }
      count("tables");
    }
  }
  // convert and approximate distance, with odd counts
  {
    size_t n = 1 + r.below(100);
    Guarded gr(n * 2, true), go(n * 4, true);
    auto *res = gr.as<uint16_t>();
    for (size_t i = 0; i < n; ++i) res[i] = static_cast<uint16_t>(r.below(32768));
    int sumq = static_cast<int>(r.below(100000));
    auto conv = [&](const char *what, L::ConvertAccumFn f) {
      memset(go.p, 0x7B, n * 4);
      f(n, res, sumq, go.as<float>());
      eval();
      for (size_t i = 0; i < n; ++i)
        VF_CHECK(go.as<float>()[i] == static_cast<float>(2 * static_cast<int>(res[i]) - sumq), cat("value:", what), what, " n=", n, " element ", i,
                 " is ", go.as<float>()[i]);
    };
    conv("laser-convert", L::get_convert_func());
    conv("laser-convert-generic", L::detail::convert_accum_to_float_generic);
    if (has2()) conv("laser-convert-avx2", L::detail::convert_accum_to_float_avx2);
    if (has512()) conv("laser-convert-avx512", L::detail::convert_accum_to_float_avx512);
    Guarded a(n * 4, true), b(n * 4, true), d(n * 4, true), e(n * 4, true);
    for (auto *g : {&a, &b, &d, &e}) fill_floats(r, g->as<float>(), n, 0);
    float sy = static_cast<float>(r.unit() * 5), w = static_cast<float>(r.unit()), vl = static_cast<float>(r.gauss()), sq = static_cast<float>(r.unit() * 5);
    auto app = [&](const char *what, L::AppDistFn f) {
      f(n, sy, w, vl, sq, a.as<float>(), b.as<float>(), d.as<float>(), e.as<float>(), go.as<float>());
      eval();
      for (size_t i = 0; i < n; ++i) {
        double x = a.as<float>()[i], t = b.as<float>()[i], dq = d.as<float>()[i], vq = e.as<float>()[i];
        double want = sy + t + dq * w * x + vq * vl + sq;
        double mag = sy + std::fabs(t) + std::fabs(dq * w * x) + std::fabs(vq * vl) + sq;
        VF_CHECK(std::fabs(go.as<float>()[i] - want) <= 1e-6 * mag, cat("value:", what), what, " n=", n, " element ", i, " is ", go.as<float>()[i],
                 " expected ", want);
      }
    };
    app("laser-appro", L::get_appro_dist_func());
    app("laser-appro-generic", L::detail::appro_dist_impl_generic);
    if (has2()) app("laser-appro-avx2", L::detail::appro_dist_impl_avx2);
    if (has512()) app("laser-appro-avx512", L::detail::appro_dist_impl_avx512);
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
#if defined(__AVX512F__)
  if (!has512()) {
    count("no_avx512");
    return finish();
  }
#endif
  sample(cat("avx2=", has2(), " avx512=", has512(), " level=", alaya::simd::get_simd_level_name()));
  cases("float", tiered(4000, 60000), float_kernels);
  cases("quant", tiered(4000, 60000), quant_kernels);
  cases("transform", tiered(1200, 20000), transforms);
  cases("fastscan", tiered(1200, 20000), fastscan);
  return finish();
}
