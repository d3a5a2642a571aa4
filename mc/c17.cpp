// C17: rendering.
#include "ranks.hpp"
#include "views.hpp"
#include "again.hpp"
#include "succ.hpp"
using namespace mc;
static std::string render(const MT &m, size_t d, int &i) {
  if (d == m.shape.size()) {
    num v = m.at(i++);
    if (isf(m.dt))
      return fmt("%f", static_cast<double>(v));
    return std::to_string(static_cast<std::int64_t>(v));
  }
  std::string r = "[";
  for (int k = 0; k < m.shape[d]; ++k)
    r += (k ? ", " : "") + render(m, d + 1, i);
  return r + "]";
}
static void look(Chooser &ch, const Pair &p, const char *what) {
  int i = 0;
  std::string want = render(p.m, 0, i), got = p.t.to_string();
  if (want != got)
    fail(fmt("%s renders as %s, expected %s", what, got.substr(0, 400).c_str(),
             want.substr(0, 400).c_str()));
  if (p.t.to_string() != got)
    fail(fmt("%s renders differently the second time", what));
  ch.step(2);
  ch.state(h_model(p.m));
  ch.outcome(hash_bytes(1, want.data(), want.size()));
}
SPACE("values", "every edge value of 6 dtypes (extremes, fractions, -0, inf, NaN, huge, "
                "tiny), scalar and inside shapes {1},{2},{2,2}") {
  types dt = ch.of(ALL_TYPES);
  auto v = edge_vals(dt);
  if (isf(dt))
    for (num x : {1e-7L, 1e-6L, 0.1L, 1e10L, 1e30L, 123456.789L, -0.000001L, 9.9999995L})
      v.push_back(dt == INNC::f32 ? (num)(float)x : (num)(double)x);
  if (dt == INNC::f64)
    v.push_back(1e300);
  else if (dt != INNC::f32)
    for (int x = -128; x < 128; ++x)
      v.push_back(x);
  ch.shard();
  num x = ch.of(v);
  for (auto &s : std::vector<Shape>{{}, {1}, {2}, {2, 2}, {1, 1, 1}}) {
    std::vector<num> w(numel(s), x);
    if (w.size() > 1)
      w[1] = 1;
    Pair p = q_new(s, dt, w);
    look(ch, p, "tensor");
  }
}
SPACE("dense values", "every i8 and every i16 value, every byte value of i32 and i64 at every byte position, every f32 with 7 and every f64 with 4 "
                      "leading mantissa bits") {
  types dt = ch.of(ALL_TYPES);
  int parts = dt == INNC::i16 || dt == INNC::f32 ? 64 : dt == INNC::f64 ? 64 : dt == INNC::i8 ? 1 : static_cast<int>(tsize(dt));
  int part = ch.pick(parts);
  ch.shard();
  std::vector<num> v;
  for (int i = 0; i < 1024; ++i) {
    if (dt == INNC::i16)
      v.push_back(-32768 + part * 1024 + i);
    else if (dt == INNC::f32) {
      std::uint32_t u = static_cast<std::uint32_t>(part * 1024 + i) << 16;
      float f;
      std::memcpy(&f, &u, 4);
      v.push_back(std::isnan(f) ? std::numeric_limits<num>::quiet_NaN() : static_cast<num>(f));
    } else if (dt == INNC::f64) {
      std::uint64_t u = static_cast<std::uint64_t>(part * 1024 + i) << 48;
      double f;
      std::memcpy(&f, &u, 8);
      v.push_back(std::isnan(f) ? std::numeric_limits<num>::quiet_NaN() : static_cast<num>(f));
    } else {
      v = dense_vals(dt);
      for (num &x : v)
        x = std::ldexp(x, 8 * part);
      break;
    }
  }
  Pair p = q_new({static_cast<int>(v.size())}, dt, v);
  look(ch, p, "line of values");
}
SPACE("layouts", "shapes of rank 0..3 over {0,1,2,3} and wide shapes x 14 layouts x 6 dtypes") {
  static const auto ss = [] {
    auto v = shapes(0, 3, {0, 1, 2, 3});
    for (auto &s : wide_shapes())
      v.push_back(s);
    return v;
  }();
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  types dt = ch.of(ALL_TYPES);
  Pair p = make_layout(k, s, dt, iota_vals(numel(s), dt, 1));
  look(ch, p, layout_name(k));
}
SPACE("lines", "every line extent x 6 dtypes; empty tensor handle renders as []") {
  int n = ch.of(line_sizes());
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  Pair p = q_new({n}, dt, iota_vals(n, dt, 1));
  look(ch, p, "line");
  Tensor e;
  if (e.to_string() != "[]")
    fail("an empty Tensor renders as " + e.to_string());
  if (p.t.grad().to_string() != "[]")
    fail("a missing gradient renders as " + p.t.grad().to_string());
}
SPACE("views", "every chain of 2 view operations from 5 bases") {
  static const std::vector<Shape> bases = {{4}, {2, 3}, {3, 2}, {2, 2, 2}, {1, 3, 2}};
  const Shape &b = ch.of(bases);
  auto o1 = view_ops(b, true);
  const VOp &x = ch.of(o1);
  ch.shard();
  types dt = ch.of(ALL_TYPES);
  Pair a = q_new(b, dt, iota_vals(numel(b), dt, 1));
  Pair p = apply(a, x);
  look(ch, p, "view");
  for (auto &y : view_ops(p.m.shape, true)) {
    Pair q = apply(p, y);
    look(ch, q, ("view of a view " + y.str()).c_str());
  }
}
SPACE("sizes and strides", "SizeVec and SignedVec rendering, and the stream operator, over "
                           "all vectors of length 0..3 over {0,1,10,18446744073709551615} "
                           "and {-3,0,7}") {
  int n = ch.pick(4);
  ch.shard();
  SizeVec a;
  SignedVec b;
  std::string wa = "[", wb = "[";
  static const std::vector<size_t> xs = {0, 1, 10, static_cast<size_t>(-1)};
  static const std::vector<ll> ys = {-3, 0, 7};
  for (int i = 0; i < n; ++i) {
    size_t x = ch.of(xs);
    ll y = ch.of(ys);
    a.push_back(x);
    b.push_back(y);
    wa += (i ? ", " : "") + std::to_string(x);
    wb += (i ? ", " : "") + std::to_string(y);
  }
  LOG("%s %s", wa.c_str(), wb.c_str());
  if (a.to_string() != wa + "]" || b.to_string() != wb + "]")
    fail("rendering of a size vector: " + a.to_string() + " " + b.to_string());
  ch.step(2);
  ch.state(hash_bytes(1, wa.data(), wa.size()));
  ch.outcome(hash_bytes(1, wb.data(), wb.size()));
}

SUCCESSIONS(17)
AGAIN(17)

HIGH_RANKS(17)
