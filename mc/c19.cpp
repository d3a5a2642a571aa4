// C19: random normal tensors.
#include "model.hpp"
#include <unistd.h>
#include <array>
using namespace mc;
// n draws of a standard normal variable: no repeated blocks, no dependence on
// the neighbour, the right share below each of a few bounds.  Every bound is
// at least 9 standard deviations wide.
static void spread(const std::vector<num> &v, const char *what) {
  size_t n = v.size();
  auto u = v;
  for (auto &x : u)
    x = std::fabs(x);
  std::sort(u.begin(), u.end());
  size_t d = std::unique(u.begin(), u.end()) - u.begin();
  // only six decimals are visible: many draws collide now and then
  if (n <= 20000 && d < n - n / 10)
    fail(fmt("%s: only %zu of %zu draws are distinct", what, d, n));
  std::vector<std::array<num, 4>> w;
  for (size_t i = 3; i < n; ++i)
    w.push_back({std::fabs(v[i - 3]), std::fabs(v[i - 2]), std::fabs(v[i - 1]), std::fabs(v[i])});
  std::sort(w.begin(), w.end());
  if (std::adjacent_find(w.begin(), w.end()) != w.end())
    fail(fmt("%s: the same four draws occur twice among %zu", what, n));
  for (size_t lag : {1, 2, 3, 4, 8, 16}) {
    num c = 0;
    for (size_t i = lag; i < n; ++i)
      c += v[i] * v[i - lag];
    if (n >= 256 && std::fabs(c / n) > 13 / std::sqrt(static_cast<num>(n)))
      fail(fmt("%s: draws %zu apart are correlated: %.4Lf", what, lag, c / n));
  }
  for (num q : {-2.0L, -1.0L, -0.5L, 0.0L, 0.5L, 1.0L, 2.0L}) {
    num p = 0.5L * std::erfc(-q / std::sqrt(2.0L)), k = 0;
    for (num x : v)
      k += x < q;
    if (n >= 256 && std::fabs(k / n - p) > 9 * std::sqrt(p * (1 - p) / n) + 4.0L / n)
      fail(fmt("%s: %.4Lf of the draws are below %.1Lf, expected %.4Lf", what, k / n, q, p));
  }
}
static void look(Chooser &ch, const Tensor &t, const Shape &s, types dt, const char *what) {
  Obs o = observe(t);
  if (o.shape != s)
    fail(fmt("%s: size is %s, expected %s", what, sstr(o.shape).c_str(), sstr(s).c_str()));
  if (o.dt != dt)
    fail(fmt("%s: type is %s, expected %s", what, tname(o.dt), tname(dt)));
  for (num v : o.v) {
    if (!std::isfinite(v))
      fail(fmt("%s: an element is not finite", what));
    // beyond 12 standard deviations: probability below 1e-32 per element
    if (std::fabs(v) > 12)
      fail(fmt("%s: element %.3Lf is no standard normal draw", what, v));
  }
  if (t.requires_grad() || !t.is_contiguous())
    fail(fmt("%s: wrong flags", what));
  // n draws: equality of all of them, or a mean 9 sigma off, does not happen
  size_t n = o.v.size();
  if (n >= 8) {
    bool same = true;
    for (num v : o.v)
      same &= v == o.v[0];
    if (same)
      fail(fmt("%s: all %zu draws are equal", what, n));
    num m = 0, q = 0;
    for (num v : o.v) {
      m += v;
      q += v * v;
    }
    m /= n;
    q /= n;
    if (std::fabs(m) > 9 / std::sqrt((num)n))
      fail(fmt("%s: mean of %zu draws is %.4Lf", what, n, m));
    if (n >= 256 && std::fabs(q - 1) > 13 / std::sqrt((num)n))
      fail(fmt("%s: second moment of %zu draws is %.4Lf", what, n, q));
    if (n >= 64)
      spread(o.v, what);
    // no block of the tensor was left unwritten: runs of equal draws
    if (n >= 3)
      for (size_t i = 2; i < n; ++i)
        if (o.v[i] == o.v[i - 1] && o.v[i] == o.v[i - 2])
          fail(fmt("%s: three equal draws in a row at %zu", what, i));
  }
  // an f64 draw is a float by chance only (one of 10^8)
  if (dt == INNC::f64 && n >= 8) {
    Tensor r = const_cast<Tensor &>(t).type(INNC::f32).type(INNC::f64);
    if ((r == t).all())
      fail(fmt("%s: all %zu draws of type f64 have float precision", what, n));
  }
  ch.step();
}
SPACE("tails", "2 million draws (thorough 20 million) of f32 and of f64 in tensors of 10, 1000 and 100 000 elements: the share beyond 2.5, 3, 3.5, 4 deviations on "
               "either side, bounds of 12 standard deviations") {
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  static const std::vector<int> ns = {10, 1000, 100000};
  int n = ch.of(ns);
  ch.shard();
  const num total = is_asan() ? 100000 : is_thorough() ? 20000000 : 2000000;
  static const std::vector<num> qs = {2.5L, 3, 3.5L, 4};
  std::vector<num> lo(qs.size(), 0), hi(qs.size(), 0);
  LOG("randn({%d},%s), %.0Lf draws", n, tname(dt), total);
  for (num k = 0; k < total; k += n) {
    Obs o = observe(Tensor::randn({static_cast<size_t>(n)}, dt));
    for (num v : o.v)
      for (size_t i = 0; i < qs.size(); ++i) {
        hi[i] += v > qs[i];
        lo[i] += v < -qs[i];
      }
    ch.step();
  }
  for (size_t i = 0; i < qs.size(); ++i) {
    num mu = total * 0.5L * std::erfc(qs[i] / std::sqrt(2.0L)), w = 12 * std::sqrt(mu) + 20;
    if (hi[i] > mu + w || lo[i] > mu + w || (mu > 50 && (hi[i] == 0 || lo[i] == 0)) || hi[i] < mu - w || lo[i] < mu - w)
      fail(fmt("%.0Lf and %.0Lf of %.0Lf draws are beyond %.1Lf and -%.1Lf, expected some %.0Lf", hi[i], lo[i], total, qs[i], qs[i], mu));
  }
  ch.state(n * 2 + (dt == INNC::f64));
}
SPACE("shapes", "randn over every shape of rank 0..3 over {0,1,2,3}, wide shapes and line "
                "extents x f32, f64") {
  static const auto ss = [] {
    auto v = shapes(0, 3, {0, 1, 2, 3});
    for (auto &s : wide_shapes())
      v.push_back(s);
    for (int n : line_sizes())
      v.push_back({n});
    return v;
  }();
  const Shape &s = ch.of(ss);
  ch.shard();
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  LOG("randn(%s,%s)", sstr(s).c_str(), tname(dt));
  Tensor a = Tensor::randn(sv(s), dt), b = Tensor::randn(sv(s), dt);
  look(ch, a, s, dt, "randn");
  look(ch, b, s, dt, "randn");
  if (numel(s) >= 8 && a.to_string() == b.to_string())
    fail("two calls of randn gave the same tensor");
  Tensor c = Tensor::randn_like(a);
  look(ch, c, s, dt, "randn_like");
  std::string sa = a.to_string(), sb = b.to_string();
  c += Tensor::ones({}, dt);
  if (a.to_string() != sa || b.to_string() != sb)
    fail("random tensors share elements");
  ch.state(hash_u64(hash_bytes(1, s.data(), s.size() * 4), dt));
  ch.outcome(hash_bytes(1, sa.data(), sa.size()));
}
SPACE("like", "randn_like of 14 layouts x shapes of rank 0..3 over {0,1,2,3} x f32, f64: "
              "size and type of the argument, argument untouched") {
  static const auto ss = shapes(0, 3, {0, 1, 2, 3});
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  Pair a = make_layout(k, s, dt, iota_vals(numel(s), dt, 1));
  LOG("randn_like");
  Tensor r = Tensor::randn_like(a.t);
  look(ch, r, s, dt, "randn_like");
  r += a.t;
  check(a, "argument of randn_like");
  ch.state(h_layout(a.m));
}
SPACE("integers", "randn and randn_like of the 4 integer types are rejected for every shape "
                  "of rank 0..3 over {0,1,2,3}") {
  static const auto ss = shapes(0, 3, {0, 1, 2, 3});
  const Shape &s = ch.of(ss);
  ch.shard();
  for (types dt : {INNC::i8, INNC::i16, INNC::i32, INNC::i64}) {
    LOG("randn(%s,%s)", sstr(s).c_str(), tname(dt));
    if (!throws([&] { Tensor::randn(sv(s), dt); }))
      fail(fmt("randn(%s,%s) was accepted", sstr(s).c_str(), tname(dt)));
    Tensor z = Tensor::zeros(sv(s), dt);
    if (!throws([&] { Tensor::randn_like(z); }))
      fail("randn_like of an integer tensor was accepted");
    check(z, m_new(s, dt, std::vector<num>(numel(s), 0)), "argument");
    ch.step(2);
  }
  ch.state(hash_bytes(1, s.data(), s.size() * 4));
}

// a program that prints its first random tensors
static void first_draws() {
  printf("%s\n%s\n%s\n", Tensor::randn({3, 4}, INNC::f64).to_string().c_str(), Tensor::randn({5}, INNC::f32).to_string().c_str(),
         Tensor::randn({}, INNC::f64).to_string().c_str());
}
static const bool hooked = [] {
  child = first_draws;
  return true;
}();
SPACE("runs", "the first draws of four runs of a program are not all the same") {
  ch.shard();
  char exe[4096] = {};
  if (readlink("/proc/self/exe", exe, sizeof exe - 1) <= 0)
    throw std::runtime_error("cannot find this program");
  std::vector<std::string> outs;
  for (int i = 0; i < 4; ++i) {
    LOG("run %d", i);
    FILE *p = popen(("'" + std::string(exe) + "' --child").c_str(), "r");
    if (!p)
      throw std::runtime_error("cannot start this program");
    std::string o;
    char buf[4096];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, p)) > 0)
      o.append(buf, n);
    if (pclose(p) != 0 || o.empty())
      fail("a program that draws random tensors failed");
    outs.push_back(o);
    ch.step();
  }
  if (outs[1] == outs[0] && outs[2] == outs[0] && outs[3] == outs[0])
    fail("every run of a program draws the same random tensors");
}

SPACE("sequences", "n successive calls (1000; thorough 100 000) for one- and few-element tensors, {randn, randn_like, alternating types}: taken together the draws are "
                   "distinct, uncorrelated and normally distributed") {
  static const std::vector<Shape> ss = {{}, {1}, {2}, {3}, {2, 2}, {1, 5}, {7}};
  const Shape &s = ch.of(ss);
  int how = ch.pick(4);
  ch.shard();
  std::vector<num> all[2];
  int calls = is_asan() ? 300 : is_thorough() ? 100000 : 1000;
  for (int i = 0; i < calls; ++i) {
    types dt = how == 0 ? INNC::f32 : how == 1 ? INNC::f64 : i % 2 ? INNC::f64 : INNC::f32;
    Tensor t;
    if (how == 3) {
      Tensor like = Tensor::zeros(sv(s), dt);
      t = Tensor::randn_like(like);
    } else
      t = Tensor::randn(sv(s), dt);
    Obs o = observe(t);
    for (num v : o.v)
      all[dt == INNC::f64].push_back(v);
    ch.step();
  }
  for (auto &v : all)
    if (!v.empty())
      spread(v, "successive draws");
  ch.outcome(hash_u64(numel(s), how));
}
