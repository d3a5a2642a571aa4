// C03: comparisons and all().
#include "ranks.hpp"
#include "model.hpp"
#include "again.hpp"
#include "succ.hpp"
using namespace mc;
static const std::vector<Cmp> CMPS = {LT, GT, LE, GE, EQ, NE};

static void run_cmp(Chooser &ch, Cmp op, const Pair &a, const Pair &b) {
  LOG("a %s b", cmp_str[op]);
  MT m = m_cmp(op, a.m, b.m);
  Tensor r = r_cmp(op, a.t, b.t);
  check(r, m, "comparison");
  if (r.requires_grad())
    fail("the result of a comparison requires grad");
  bool want = true;
  for (int i = 0; i < m.n(); ++i)
    want &= m.at(i) != 0;
  if (r.all() != want)
    fail(fmt("all() of the comparison is %d, expected %d", r.all(), want));
  check(a, "left operand");
  check(b, "right operand");
  ch.step(2);
  ch.state(hash_u64(h_model(a.m), hash_u64(h_model(b.m), op)));
  ch.outcome(h_model(m));
}
// few distinct values, so that all three outcomes occur
static std::vector<num> cyc(int n, types dt, int salt) {
  std::vector<num> v;
  for (int i = 0; i < n; ++i) {
    num x = (i * 5 + salt * 3 + i / 3) % 4 - 1;
    v.push_back(isf(dt) ? x / 2 : x);
  }
  return v;
}

SPACE("value-pairs", "36 dtype pairs x 6 comparisons x all pairs of edge values "
                     "(extremes, 2^24+1, 2^53+1, -0, inf, NaN)") {
  types ta = ch.of(ALL_TYPES), tb = ch.of(ALL_TYPES);
  auto va = edge_vals(ta), vb = edge_vals(tb);
  num a = ch.of(va);
  ch.shard();
  num b = ch.of(vb);
  Pair x = q_new({2}, ta, {a, 1}), y = q_new({2}, tb, {b, 1});
  Pair s = q_new({}, tb, {b});
  for (Cmp c : CMPS) {
    run_cmp(ch, c, x, y);
    run_cmp(ch, c, x, s);
  }
}
SPACE("layout-pairs", "14x14 layouts x 8 broadcast shape pairs x 36 dtype pairs x 6 "
                      "comparisons") {
  static const std::vector<std::pair<Shape, Shape>> sp = {
      {{}, {}},      {{3}, {}},           {{2, 3}, {3}},    {{2, 1}, {1, 3}},
      {{2, 3}, {2, 3}}, {{2, 3, 2}, {3, 1}}, {{0, 2}, {2}}, {{2, 2, 2}, {2, 2, 2}}};
  int la = ch.pick(N_LAYOUTS), lb = ch.pick(N_LAYOUTS);
  auto &s = ch.of(sp);
  if (!layout_ok(la, s.first) || !layout_ok(lb, s.second))
    ch.prune();
  ch.shard();
  types ta = ch.of(ALL_TYPES), tb = ch.of(ALL_TYPES);
  Pair a = make_layout(la, s.first, ta, cyc(numel(s.first), ta, 1));
  Pair b = make_layout(lb, s.second, tb, cyc(numel(s.second), tb, 2));
  for (Cmp c : CMPS)
    run_cmp(ch, c, a, b);
}
SPACE("shape-pairs", "all pairs of shapes of rank 0..3 over {0,1,2,3} that broadcast and "
                     "rank 4 x 0..4 over {1,2}, 6 comparisons") {
  static const auto s3 = shapes(0, 3, {0, 1, 2, 3});
  static const auto s4 = shapes(4, 4, {1, 2});
  static const auto s04 = shapes(0, 4, {1, 2});
  int kind = ch.pick(2);
  const Shape &a = kind == 0 ? ch.of(s3) : ch.of(s4);
  ch.shard();
  const Shape &b = kind == 0 ? ch.of(s3) : ch.of(s04);
  if (!bshape(a, b))
    ch.prune();
  int n = numel(a) + 3 * numel(b) + static_cast<int>(a.size());
  for (int c = 0; c < 6; ++c) {
    types ta = ALL_TYPES[(n + c) % 6], tb = ALL_TYPES[(n / 6 + 2 * c) % 6];
    Pair x = q_new(a, ta, cyc(numel(a), ta, c));
    Pair y = q_new(b, tb, cyc(numel(b), tb, c + 1));
    run_cmp(ch, CMPS[c], x, y);
    run_cmp(ch, CMPS[c], y, x);
  }
}
SPACE("shape-layout pairs", "all broadcasting pairs of shapes of rank 0..3 over {1,2,3} (thorough "
                            "{0,1,2,3}) x 14x14 layouts, comparison and dtypes by position") {
  static const auto s3 = shapes(0, 3, is_thorough() ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{1, 2, 3});
  const Shape &a = ch.of(s3);
  const Shape &b = ch.of(s3);
  if (!bshape(a, b))
    ch.prune();
  ch.shard();
  int la = ch.pick(N_LAYOUTS), lb = ch.pick(N_LAYOUTS);
  if (!layout_ok(la, a) || !layout_ok(lb, b))
    ch.prune();
  if (is_asan() && !is_thorough() && la && lb)
    ch.prune();
  int n = la * 5 + lb + numel(a) + 3 * numel(b);
  types ta = ALL_TYPES[n % 6], tb = ALL_TYPES[(n / 6 + lb) % 6];
  Pair x = make_layout(la, a, ta, cyc(numel(a), ta, n));
  Pair y = make_layout(lb, b, tb, cyc(numel(b), tb, n + 1));
  run_cmp(ch, CMPS[(n / 2) % 6], x, y);
  run_cmp(ch, CMPS[(n / 2 + 3) % 6], x, y);
}
SPACE("bit values", "36 dtype pairs x 6 comparisons x every +-2^k, +-2^k+-1 of the left with its "
                    "neighbours and negation on the right") {
  types ta = ch.of(ALL_TYPES), tb = ch.of(ALL_TYPES);
  ch.shard();
  for (num a : bit_vals(ta))
    for (num b : {a, a - 1, a + 1, -a, num(0)}) {
      if (!fits(b, tb) || convert(b, tb) != b)
        continue;
      Pair x = q_new({1}, ta, {a}), y = q_new({}, tb, {b});
      for (Cmp c : CMPS)
        run_cmp(ch, c, x, y);
    }
}
SPACE("dense pairs", "36 dtype pairs x 6 comparisons x all 256x256 pairs of values: every byte value of integers, every "
                     "sign/4-bit exponent/3-bit mantissa of floating types") {
  types ta = ch.of(ALL_TYPES), tb = ch.of(ALL_TYPES);
  auto va = dense_vals(ta);
  num a = ch.of(va);
  if (is_asan() && !is_thorough() && ta != tb)
    ch.prune();
  ch.shard();
  Pair x = q_new({}, ta, {a}), y = q_new({256}, tb, dense_vals(tb));
  for (Cmp c : CMPS)
    run_cmp(ch, c, x, y);
}
SPACE("sizes", "every line extent and wide shape x 6 dtypes x 6 comparisons, same-shape "
               "and scalar partners") {
  static const auto ss = [] {
    std::vector<Shape> v = wide_shapes();
    for (int n : line_sizes())
      v.push_back({n});
    return v;
  }();
  const Shape &s = ch.of(ss);
  types ta = ch.of(ALL_TYPES);
  ch.shard();
  types tb = ALL_TYPES[(ta + s.size() + s[0]) % 6];
  Pair a = q_new(s, ta, cyc(numel(s), ta, 1)), b = q_new(s, tb, cyc(numel(s), tb, 2));
  Pair z = q_new({}, tb, {0});
  for (Cmp c : CMPS) {
    run_cmp(ch, c, a, b);
    run_cmp(ch, c, z, a);
  }
}
SPACE("all-positions", "all(): every shape of rank 0..3 over {0,1,2,3}, 14 layouts, 6 "
                       "dtypes; no zero, and a single zero at each position, storage "
                       "outside of the view nonzero or zero") {
  static const auto ss = shapes(0, 3, {0, 1, 2, 3});
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  types dt = ch.of(ALL_TYPES);
  int n = numel(s);
  for (int z = -1; z < n; ++z) {
    auto v = iota_vals(n, dt, 1);
    if (z >= 0)
      v[z] = z % 2 && isf(dt) ? static_cast<num>(-0.0) : 0;
    Pair a = make_layout(k, s, dt, v);
    LOG("all(), zero at %d", z);
    if (a.t.all() != (z < 0))
      fail(fmt("all() is %d with %s", a.t.all(),
               z < 0 ? "no zero element" : fmt("a zero at %d", z).c_str()));
    check(a, "argument of all()");
    ch.step();
    ch.state(h_model(a.m));
    ch.outcome(z < 0);
  }
}
SPACE("all-values", "all() of 1..9 copies of every nonzero edge value and of values with "
                    "zero bytes (256, 65536, 2^32, 0.5, denormals, NaN) x 6 dtypes") {
  types dt = ch.of(ALL_TYPES);
  std::vector<num> v = edge_vals(dt);
  for (num x : {256.0L, 65536.0L, 4294967296.0L, 512.0L, -256.0L})
    if (fits(x, dt))
      v.push_back(x);
  if (isf(dt)) {
    v.push_back(0.25L);
    v.push_back(dt == INNC::f32 ? 1e-40L : 1e-310L);
  }
  num x = ch.of(v);
  ch.shard();
  for (int n = 0; n <= 9; ++n) {
    Tensor t = r_new({n}, dt, std::vector<num>(n, x));
    LOG("all() of %d x %.6Lg %s", n, x, tname(dt));
    bool want = n == 0 || !(x == 0);
    if (t.all() != want)
      fail(fmt("all() of %d x %.10Lg (%s) is %d", n, x, tname(dt), t.all()));
    ch.step();
    ch.state(hash_u64(hash_u64(dt, n), hash_bytes(7, &x, 10)));
    ch.outcome(want);
  }
}
SPACE("all dense", "all() of a one- and of a four-element tensor for every i8 and i16 value, every byte value of i32 and i64 at every byte "
                   "position and every 8-bit floating value") {
  types dt = ch.of(ALL_TYPES);
  int part = ch.pick(dt == INNC::i16 ? 64 : isf(dt) ? 1 : static_cast<int>(tsize(dt)));
  ch.shard();
  std::vector<num> v;
  if (dt == INNC::i16)
    for (int i = 0; i < 1024; ++i)
      v.push_back(-32768 + part * 1024 + i);
  else
    v = dense_vals(dt);
  for (num x : v) {
    if (dt == INNC::i32 || dt == INNC::i64)
      x = std::ldexp(x, 8 * part);
    for (int n : {1, 4}) {
      std::vector<num> w(n, 1);
      w.back() = x;
      bool r = r_new({n}, dt, w).all();
      LOG("all() of %d elements, last %.10Lg %s", n, x, tname(dt));
      if (r != (x != 0))
        fail(fmt("all() of %d elements, the last %.10Lg (%s), is %d", n, x, tname(dt), r));
      ch.step();
    }
  }
  ch.state(hash_u64(dt, part));
}
SPACE("all-lines", "all() over every line extent, zero nowhere / first / middle / last, "
                   "6 dtypes") {
  int n = ch.of(line_sizes());
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  for (int z : {-1, 0, n / 2, n - 1}) {
    if (z >= n)
      continue;
    auto v = iota_vals(n, dt, 2);
    if (z >= 0)
      v[z] = 0;
    Tensor t = r_new({n}, dt, v);
    LOG("all() n=%d zero at %d", n, z);
    if (t.all() != (z < 0))
      fail(fmt("all() of %d elements with zero at %d is %d", n, z, t.all()));
    ch.step();
    ch.state(hash_u64(hash_u64(n, dt), z + 1));
    ch.outcome(z < 0);
  }
}

SPACE("self", "an operand with itself (the same handle, a second handle, a view of all of it, an overlapping view) x 6 dtypes x every edge value including NaN "
              "x 6 layouts x 6 comparisons") {
  types dt = ch.of(ALL_TYPES);
  static const std::vector<int> ks = {0, 2, 3, 4, 5, 6};
  int k = ch.of(ks);
  ch.shard();
  for (num v : edge_vals(dt))
    for (int how = 0; how < 4; ++how) {
      Pair a = make_layout(k, {2, 2}, dt, {v, 1, 2, v});
      Pair b = how < 2 ? q_handle(a) : how == 2 ? q_slice(a, {sl()}) : q_transpose(a, 0, 1);
      const Pair &r = how == 0 ? a : b;
      for (Cmp c : CMPS)
        run_cmp(ch, c, a, r);
    }
}

SUCCESSIONS(3)
AGAIN(3)

HIGH_RANKS(3)
