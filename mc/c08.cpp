// C08: reductions.
#include "ranks.hpp"
#include "model.hpp"
#include "again.hpp"
#include "succ.hpp"
using namespace mc;

static void reduce(Chooser &ch, const Pair &a) {
  {
    Tol tol(0, 1e-12L); // the order of summation is not promised
    LOG("sum");
    check(a.t.sum(), m_sum(a.m), "sum");
    ch.step();
    if (a.m.n() > 0) {
      LOG("mean");
      check(a.t.mean(), m_mean(a.m), "mean");
    }
  }
  if (a.m.n() > 0) {
    LOG("max");
    check(a.t.max(), m_max(a.m), "max");
    LOG("min");
    check(a.t.min(), m_min(a.m), "min");
    ch.step(3);
  }
  check(a, "argument of a reduction");
  ch.state(h_model(a.m));
  ch.outcome(h_model(m_sum(a.m)));
}
SPACE("layouts", "sum, mean, max, min of every shape of rank 0..3 over {0,1,2,3} and the "
                 "wide shapes x 14 layouts (poisoned surroundings) x 6 dtypes x 3 value "
                 "patterns (the third: totals beyond the range or precision of the element type)") {
  static const auto ss = [] {
    auto v = shapes(0, 3, {0, 1, 2, 3});
    for (auto &s : wide_shapes())
      v.push_back(s);
    return v;
  }();
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  types dt = ch.of(ALL_TYPES);
  for (int salt : {1, 2}) {
    Pair a = make_layout(k, s, dt, iota_vals(numel(s), dt, salt));
    reduce(ch, a);
  }
  std::vector<num> big, x;
  switch (dt) {
  case INNC::i8: big = {127, 126, -3, 125}; break;
  case INNC::i16: big = {32767, 32766, -3, 30001}; break;
  case INNC::i32: big = {2147483647, 2147483645, -3, 1999999999}; break;
  case INNC::i64: big = {9007199254740993LL, 4294967297LL, -3, 9007199254740995LL}; break;
  case INNC::f32: big = {16777215, 16777213, -0.5L, 8388607.5L}; break;
  default: big = {4503599627370497.0L, 0.5L, -3, 16777217}; break;
  }
  for (int i = 0; i < numel(s); ++i)
    x.push_back(dt == INNC::i64 && i > 60 ? 2 : big[i * 3 % 4]);
  Pair a = make_layout(k, s, dt, x);
  reduce(ch, a);
}
SPACE("extreme position", "max and min with the extreme at every position of 10 shapes x "
                          "14 layouts x 6 dtypes; all elements negative, all positive, and "
                          "ties") {
  static const std::vector<Shape> ss = {{1}, {2}, {5}, {9}, {2, 3}, {3, 3}, {1, 4}, {2, 2, 2}, {3, 1, 2}, {2, 2, 1, 2}};
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  types dt = ch.of(ALL_TYPES);
  int n = numel(s);
  for (int pos = 0; pos < n; ++pos)
    for (int kind = 0; kind < 4; ++kind) {
      std::vector<num> v;
      for (int i = 0; i < n; ++i) {
        num base = kind == 0 ? -50 : kind == 1 ? 50 : kind == 2 ? 0 : -7;
        v.push_back(base + (kind == 3 ? 0 : i % 5));
      }
      v[pos] = kind % 2 ? 20 - 40 * (pos % 2) : 100 - 200 * (pos % 2);
      Pair a = make_layout(k, s, dt, v);
      LOG("max/min, extreme %Lf at %d", v[pos], pos);
      check(a.t.max(), m_max(a.m), "max");
      check(a.t.min(), m_min(a.m), "min");
      ch.step(2);
      ch.state(h_model(a.m));
      ch.outcome(hash_u64(h_model(m_max(a.m)), h_model(m_min(a.m))));
    }
}
SPACE("accumulators", "sums and means that exceed the element type: n copies (1..300) of "
                      "the extremes of every dtype; f32 values whose partial sums exceed "
                      "2^24; i64 sums beyond 2^53") {
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  std::vector<num> vals;
  switch (dt) {
  case INNC::i8: vals = {127, -128, 100, 3}; break;
  case INNC::i16: vals = {32767, -32768, 30001}; break;
  case INNC::i32: vals = {2147483647, -2147483648LL, 16777217, 1999999999}; break;
  case INNC::i64: vals = {9007199254740993LL, -9007199254740993LL, 4294967297LL, 20000000000000001LL}; break;
  case INNC::f32: vals = {16777215, 0.5L, -8388607.5L, 16777216}; break;
  default: vals = {16777217, 4503599627370497.0L / 512, -0.015625L}; break;
  }
  num v = ch.of(vals);
  for (int n : {1, 2, 3, 7, 16, 17, 100, 129, 256, 300}) {
    std::vector<num> x(n, v);
    if (n > 2)
      x[n / 2] = 1;
    Pair a = q_new({n}, dt, x);
    reduce(ch, a);
    if (n % 2 == 0) {
      Pair b = make_layout(5, {2, n / 2}, dt, x);
      reduce(ch, b);
    }
  }
}
SPACE("long accumulators", "sum and mean of n copies of the extremes of each dtype, n = 2^15, 2^16 and 2^17 (each -1, 0, +1), 2^20+3, and "
                           "2^24+2^20+1 for i8, 2^24+1 for f32: whole lines and rows, alternating signs, exact") {
  types dt = ch.of(ALL_TYPES);
  std::vector<std::int64_t> ns;
  for (int p = 15; p <= (is_asan() ? 15 : 17); ++p)
    for (int d = -1; d <= 1; ++d)
      ns.push_back((1LL << p) + d);
  if (!is_asan())
    ns.push_back((1 << 20) + 3);
  if (dt == INNC::i8 && !is_asan())
    ns.push_back((1 << 24) + (1 << 20) + 1);
  if (dt == INNC::f32 && !is_asan())
    ns.push_back((1 << 24) + 1);
  std::int64_t n = ch.of(ns);
  ch.shard();
  std::vector<num> vals;
  switch (dt) {
  case INNC::i8: vals = {127, -128, 1}; break;
  case INNC::i16: vals = {32767, -32768, 257}; break;
  case INNC::i32: vals = {2147483647, -2147483648LL, 65537}; break;
  case INNC::i64: vals = {4398046511105LL, -4398046511105LL, 4294967297LL}; break;
  case INNC::f32: vals = {16777215, 0.5L, -8388607.5L}; break;
  default: vals = {16777217, -0.015625L, 4294967297.0L}; break;
  }
  num v = ch.of(vals);
  LOG("%lld copies of %.6Lf", static_cast<long long>(n), v);
  Pair e = q_new({}, dt, {v});
  Tensor t = Tensor::zeros({static_cast<size_t>(n)}, dt);
  t += e.t;
  // on a strided view and as rows as well
  MT one = m_sum(e.m), mn = m_mean(e.m);
  auto look = [&](const Tensor &x, num cnt, const char *what) {
    check(x.sum(), m_new({}, one.dt, {v * cnt}), what);
    check(x.mean(), m_new({}, mn.dt, {mn.at(0)}), what);
    ch.step(2);
  };
  look(t, n, "a line");
  if (n <= (1 << 20) + 3) {
    Tensor r = t["::-1"], q = t["::2"];
    look(r, n, "a reversed line");
    look(q, (n + 1) / 2, "every other element");
    if (n % 2 == 0) {
      Tensor w = t.reshape({2, -1}), u = w.transpose(0, 1);
      look(w, n, "two rows");
      look(u, n, "two columns");
    }
  }
  ch.outcome(hash_u64(n, static_cast<uint64_t>(v)));
}
SPACE("mixed magnitude", "f32 and f64 sums where a large and small terms meet (2^24 + 1, "
                         "2^30 + 0.5): the double accumulator keeps them, every position "
                         "of the large term in n = 2..9") {
  int n = 2 + ch.pick(8);
  ch.shard();
  for (types dt : {INNC::f32, INNC::f64})
    for (num big : {16777216.0L, 1073741824.0L, -33554432.0L})
      for (int p = 0; p < n; ++p) {
        std::vector<num> x(n, 0.5L);
        x[p] = big;
        Pair a = q_new({n}, dt, x);
        reduce(ch, a);
      }
}
SPACE("integer mean", "integer means truncate the exact quotient: every total in -20..20 "
                      "and n = 1..7 x 4 integer dtypes") {
  static const std::vector<types> I = {INNC::i8, INNC::i16, INNC::i32, INNC::i64};
  types dt = ch.of(I);
  int n = 1 + ch.pick(7);
  ch.shard();
  for (int tot = -20; tot <= 20; ++tot) {
    std::vector<num> x(n, 0);
    x[n - 1] = tot;
    if (n > 1) {
      x[0] = -3;
      x[n - 1] += 3;
    }
    Pair a = q_new({n}, dt, x);
    reduce(ch, a);
  }
}
SPACE("lines", "every line extent x 6 dtypes, contiguous and reversed and strided") {
  int n = ch.of(line_sizes());
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  for (int k : {0, 3, 4}) {
    Pair a = make_layout(k, {n}, dt, iota_vals(n, dt, 3));
    reduce(ch, a);
  }
}
SPACE("special values", "sum/mean/max/min of pairs and triples over each dtype's edge values "
                        "(no NaN, no overflow of the accumulator)") {
  types dt = ch.of(ALL_TYPES);
  auto ev = edge_vals(dt);
  num a = ch.of(ev);
  ch.shard();
  num b = ch.of(ev), c = ch.of(ev);
  num big = std::fabs(a) + std::fabs(b) + std::fabs(c);
  if (!std::isfinite(static_cast<double>(big)))
    ch.prune();
  if (!isf(dt) && big > 9.2e18L)
    ch.prune();
  Pair p = q_new({3}, dt, {a, b, c});
  reduce(ch, p);
}
SPACE("of results", "reductions of expressions and of reductions: sum of (a op b), mean of "
                    "comparison, max of sum, over 4 ops x 6 dtypes x 5 shapes") {
  static const std::vector<Shape> ss = {{}, {3}, {2, 3}, {2, 2, 2}, {1, 5}};
  const Shape &s = ch.of(ss);
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  Pair a = q_new(s, dt, iota_vals(numel(s), dt, 1));
  Pair b = q_new(s, dt, std::vector<num>(numel(s), 2));
  for (int op = 0; op < 4; ++op) {
    Pair r = q_bin(static_cast<Op>(op), a, b);
    reduce(ch, r);
    Pair t = q_sum(r);
    reduce(ch, t);
    Pair m = q_max(r);
    reduce(ch, m);
  }
  for (int c = 0; c < 6; ++c) {
    Pair r{r_cmp(static_cast<Cmp>(c), a.t, b.t), m_cmp(static_cast<Cmp>(c), a.m, b.m)};
    reduce(ch, r);
  }
}

SUCCESSIONS(8)
AGAIN(8)

HIGH_RANKS(8)
