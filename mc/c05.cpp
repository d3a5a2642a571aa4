// C05: slicing follows Python.
#include "ranks.hpp"
#include "model.hpp"
#include "again.hpp"
#include "succ.hpp"
using namespace mc;

static void one(Chooser &ch, Pair &a, const std::vector<Sl> &v,
                const std::string &text) {
  LOG("a[\"%s\"]", text.c_str());
  auto m = m_slice(a.m, v);
  if (!m) {
    if (!throws([&] { a.t[text]; }))
      fail("accepted instead of rejected: " + sstr(a.m.shape) + "[\"" + text + "\"]");
  } else {
    Tensor r = a.t[text];
    check(r, *m, ("a[\"" + text + "\"]").c_str());
    if (r.dim() != m->shape.size())
      fail("dim() of the slice is wrong");
    ch.outcome(h_layout(*m));
  }
  ch.step();
}
static std::vector<std::optional<ll>> opt_range(int lo, int hi) {
  std::vector<std::optional<ll>> v = {std::nullopt};
  for (int i = lo; i <= hi; ++i)
    v.push_back(i);
  return v;
}

SPACE("one-dim", "1-D extents 0..16 (thorough 0..32): every begin and end in -n-2..n+2 or "
                 "omitted, every step in -n-1..n+1 or omitted, and every index") {
  int n = ch.pick(is_thorough() ? 33 : is_asan() ? 9 : 17);
  auto be = opt_range(-n - 2, n + 2);
  auto b = ch.of(be);
  ch.shard();
  Pair a = q_new({n}, INNC::i16, iota_vals(n, INNC::i16, 1));
  for (auto e : be) {
    one(ch, a, {sl(b, e)}, sl(b, e).str());
    for (int s = -n - 1; s <= n + 1; ++s)
      if (s != 0)
        one(ch, a, {sl(b, e, s)}, sl(b, e, s).str());
    // "b:e:" : trailing colon, step omitted
    one(ch, a, {sl(b, e)}, sl(b, e).str() + ":");
    ch.state(hash_u64(hash_u64(n, b ? *b + 99 : 1), e ? *e + 99 : 1));
  }
  if (b)
    one(ch, a, {sl_i(*b)}, std::to_string(*b));
  check(a, "the tensor after it was sliced");
}

SPACE("extremes", "begin, end and step from {omitted, 0, +-1, +-3, +-n, +-2^31, +-2^32, "
                  "+-10^18, 2^63-1, -2^63+2} on extents {0,1,2,5,40}, 3 layouts") {
  static const std::vector<int> ns = {0, 1, 2, 5, 40};
  int n = ch.of(ns);
  std::vector<std::optional<ll>> xs = {std::nullopt, 0, 1, -1, 3, -3, n, -n, n - 1,
                                       2147483647LL, -2147483648LL, 4294967296LL,
                                       -4294967297LL, 1000000000000000000LL,
                                       -1000000000000000000LL,
                                       std::numeric_limits<ll>::max(),
                                       std::numeric_limits<ll>::min() + 2};
  auto b = ch.of(xs);
  ch.shard();
  int k = ch.pick(3);
  Pair a = make_layout(k == 0 ? 0 : k == 1 ? 3 : 4, {n}, INNC::f32,
                       iota_vals(n, INNC::f32, 2));
  for (auto e : xs)
    for (auto s : xs)
      if (!s || *s != 0)
        one(ch, a, {sl(b, e, s)}, sl(b, e, s).str());
  ch.state(hash_u64(n * 3 + k, b ? *b : 77));
}

// every begin and end in -n-1..n+1 or omitted, every step in -n..n or omitted, every index
static std::vector<Sl> all_slices(int n) {
  std::vector<Sl> v;
  auto be = opt_range(-n - 1, n + 1), st = opt_range(-n, n);
  for (auto b : be) {
    if (b && *b >= -n && *b < n)
      v.push_back(sl_i(*b));
    for (auto e : be)
      for (auto s : st)
        if (!s || *s)
          v.push_back(sl(b, e, s));
  }
  return v;
}
static std::vector<Sl> dim_slices(int n, bool more) {
  std::vector<Sl> v = {sl(),          sl_i(0),      sl_i(-1),       sl(1),
                       sl({}, -1),    sl({}, {}, -1), sl({}, {}, 2), sl(-2, {}, -1),
                       sl(0, 0)};
  if (more) {
    v.push_back(sl({}, {}, -2));
    v.push_back(sl(1, {}, 2));
    v.push_back(sl(n, {}, -1));
    v.push_back(sl(-1, 0, -2));
    v.push_back(sl_i(n / 2));
    v.push_back(sl(1, 2));
  }
  return v;
}
SPACE("two-dim", "rank 2 over extents {0,1,2,3,5}, every layout, 15x15 slice forms plus "
                 "partial, with and without blanks") {
  static const std::vector<int> ex = {0, 1, 2, 3, 5};
  Shape s = {ch.of(ex), ch.of(ex)};
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  Pair a = make_layout(k, s, INNC::i32, iota_vals(numel(s), INNC::i32, 1));
  for (auto &x : dim_slices(s[0], true)) {
    one(ch, a, {x}, x.str());
    for (auto &y : dim_slices(s[1], true)) {
      one(ch, a, {x, y}, slstr({x, y}));
      one(ch, a, {x, y}, " " + x.str() + " ,\t" + y.str() + "  ");
    }
  }
  check(a, "the tensor after it was sliced");
  ch.state(h_layout(a.m));
}
SPACE("two-dim complete", "rank 2 over extents 1..3, contiguous and transposed storage: every slice (begin and end in -n-1..n+1 or omitted, step in "
                          "-n..n or omitted) and every index of one dimension with every one of the other") {
  static const auto ss = shapes(2, 2, {1, 2, 3});
  const Shape &s = ch.of(ss);
  int k = ch.flip() ? 5 : 0;
  auto xs = all_slices(s[0]), ys = all_slices(s[1]);
  if (is_asan() && !is_thorough() && (numel(s) > 4 || k))
    ch.prune();
  const Sl &x = ch.of(xs);
  ch.shard();
  Pair a = make_layout(k, s, INNC::i16, iota_vals(numel(s), INNC::i16, 1));
  for (auto &y : ys)
    one(ch, a, {x, y}, slstr({x, y}));
  check(a, "the tensor after it was sliced");
  ch.state(hash_u64(h_layout(a.m), x.b ? *x.b : 77));
}
SPACE("two digits", "rank 2 with extents {9,10,11,12,99,100,101} in either dimension: begin, end and index around 0, 9..11, 99..101 and their negations, "
                    "steps omitted, +-1, +-2, +-10, +-11") {
  static const std::vector<int> ns = {9, 10, 11, 12, 99, 100, 101};
  int n = ch.of(ns), d = ch.pick(2);
  ch.shard();
  Shape s = d ? Shape{2, n} : Shape{n, 2};
  Pair a = q_new(s, INNC::i16, iota_vals(numel(s), INNC::i16, 1));
  std::vector<std::optional<ll>> be = {std::nullopt};
  for (ll v : {0, 1, 9, 10, 11, 12, 98, 99, 100, 101, 102})
    for (ll g : {1, -1})
      be.push_back(g * v);
  for (auto b : be) {
    if (b)
      one(ch, a, d ? std::vector<Sl>{sl(), sl_i(*b)} : std::vector<Sl>{sl_i(*b)}, (d ? ":, " : "") + std::to_string(*b));
    for (auto e : be)
      for (auto st : std::vector<std::optional<ll>>{std::nullopt, 1, -1, 2, -2, 10, -10, 11, -11}) {
        std::vector<Sl> v = {sl(b, e, st)};
        if (d)
          v.insert(v.begin(), sl_i(-1));
        one(ch, a, v, slstr(v));
      }
  }
  ch.state(hash_u64(n, d));
}
SPACE("three-dim", "rank 3 over extents {1,2,3}, 5 layouts, 9x9x9 slice forms plus every "
                   "prefix") {
  static const auto ss = shapes(3, 3, {1, 2, 3});
  static const std::vector<int> lays = {0, 4, 5, 6, 13};
  const Shape &s = ch.of(ss);
  int k = ch.of(lays);
  ch.shard();
  Pair a = make_layout(k, s, INNC::f64, iota_vals(numel(s), INNC::f64, 1));
  for (auto &x : dim_slices(s[0], false))
    for (auto &y : dim_slices(s[1], false)) {
      one(ch, a, {x, y}, slstr({x, y}));
      for (auto &z : dim_slices(s[2], false))
        one(ch, a, {x, y, z}, slstr({x, y, z}));
    }
  ch.state(h_layout(a.m));
}
SPACE("high-rank", "rank 4 over {1,2,3} and rank 5..7 over {2}: one sliced dimension at a "
                   "time, 15 forms, everything before it ':' or '0' or reversed") {
  static const auto ss = [] {
    auto v = shapes(4, 4, {1, 2, 3});
    v.push_back({2, 2, 2, 2, 2});
    v.push_back({2, 3, 1, 2, 2});
    v.push_back({2, 2, 2, 2, 2, 2});
    v.push_back({2, 1, 2, 1, 2, 1, 2});
    return v;
  }();
  const Shape &s = ch.of(ss);
  ch.shard();
  Pair a = q_new(s, INNC::i16, iota_vals(numel(s), INNC::i16, 1));
  for (size_t d = 0; d < s.size(); ++d)
    for (auto &x : dim_slices(s[d], true))
      for (auto &pre : {sl(), sl_i(0), sl({}, {}, -1), sl_i(-1)}) {
        std::vector<Sl> v(d, pre);
        v.push_back(x);
        one(ch, a, v, slstr(v));
      }
  ch.state(h_layout(a.m));
}
SPACE("dtypes", "6 dtypes x 14 layouts x 6 shapes x 15 slice forms of each dimension") {
  static const std::vector<Shape> ss = {{4}, {7}, {3, 2}, {2, 5}, {2, 3, 2}, {1, 4, 1}};
  types dt = ch.of(ALL_TYPES);
  int k = ch.pick(N_LAYOUTS);
  ch.shard();
  const Shape &s = ch.of(ss);
  if (!layout_ok(k, s))
    ch.prune();
  Pair a = make_layout(k, s, dt, iota_vals(numel(s), dt, 1));
  for (size_t d = 0; d < s.size(); ++d)
    for (auto &x : dim_slices(s[d], true)) {
      std::vector<Sl> v(d, sl());
      v.push_back(x);
      one(ch, a, v, slstr(v));
    }
  ch.state(h_layout(a.m));
}
SPACE("blanks", "every slice form of a 1-D tensor written with blanks, tabs and newlines "
                "around every token; explicit plus signs") {
  static const std::vector<std::string> ws = {"", " ", "\t", "  ", "\n", " \t "};
  auto &w1 = ch.of(ws);
  auto &w2 = ch.of(ws);
  ch.shard();
  Pair a = q_new({5}, INNC::i8, iota_vals(5, INNC::i8, 1));
  for (auto &x : dim_slices(5, true)) {
    std::string t;
    if (x.index)
      t = w1 + std::to_string(x.i) + w2;
    else {
      t = w1 + (x.b ? std::to_string(*x.b) : "") + w2 + ":" + w1 +
          (x.e ? std::to_string(*x.e) : "") + w2;
      if (x.s)
        t += ":" + w2 + std::to_string(*x.s) + w1;
    }
    one(ch, a, {x}, t);
  }
  Pair b = q_new({3, 4}, INNC::i8, iota_vals(12, INNC::i8, 1));
  for (auto &x : dim_slices(3, false))
    for (auto &y : dim_slices(4, false))
      one(ch, b, {x, y}, w1 + x.str() + w2 + "," + w2 + y.str() + w1);
  ch.state(hash_bytes(1, w1.data(), w1.size()) ^ hash_bytes(2, w2.data(), w2.size()));
}
SPACE("long", "1-D extents of the line list: 40 slices with boundaries near both ends and "
              "the middle, steps +-1, +-2, +-3, +-7, +-n") {
  int n = ch.of(line_sizes());
  ch.shard();
  if (n > 5000)
    ch.prune();
  types dt = ALL_TYPES[n % 6];
  Pair a = q_new({n}, dt, iota_vals(n, dt, 1));
  for (ll b : {0LL, 1LL, (ll)n / 2, (ll)n - 1, -(ll)n, -1LL, -2LL})
    for (ll st : {1LL, -1LL, 2LL, -2LL, 3LL, -7LL, (ll)n, -(ll)n - 1})
      if (st != 0)
        one(ch, a, {sl(b, {}, st)}, sl(b, {}, st).str());
  for (ll e : {0LL, 1LL, (ll)n / 2, (ll)n - 1, (ll)n, -1LL, -2LL})
    for (ll st : {1LL, -1LL, 3LL, -2LL})
      one(ch, a, {sl({}, e, st)}, sl({}, e, st).str());
  for (ll i : {0LL, 1LL, (ll)n / 2, (ll)n - 1, (ll)n, -1LL, -(ll)n, -(ll)n - 1})
    one(ch, a, {sl_i(i)}, std::to_string(i));
  ch.state(n);
}

SUCCESSIONS(5)
AGAIN(5)

HIGH_RANKS(5)
