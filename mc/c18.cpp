// C18: in-place addition.
#include "ranks.hpp"
#include "views.hpp"
#include "succ.hpp"
using namespace mc;
// b broadcasts to a's size
static bool fits_into(const Shape &a, const Shape &b) {
  auto r = bshape(a, b);
  return r && *r == a;
}
static num add_into(types ta, num a, types tb, num b) {
  // the sum is formed in the wider type and stored in the left one
  types w = promote(ta, tb);
  return convert(s_bin(ADD, ta, a, tb, b), w == ta ? ta : ta);
}
static bool in_range(types ta, num a, types tb, num b) {
  types w = promote(ta, tb);
  if (!isf(w)) {
    __int128 z = static_cast<__int128>(static_cast<std::int64_t>(a)) +
                 static_cast<std::int64_t>(b);
    types cw = w == INNC::i64 ? INNC::i64 : INNC::i32; // C++ computes in int at least
    __int128 lim = static_cast<__int128>(1) << (8 * tsize(cw) - 1);
    return z >= -lim && z < lim;
  }
  return isf(ta) || fits(s_bin(ADD, ta, a, tb, b), ta);
}
static int bpos(int i, const Shape &s, const Shape &b) {
  std::vector<int> c(s.size());
  for (int d = static_cast<int>(s.size()) - 1; d >= 0; --d) {
    c[d] = i % s[d];
    i /= s[d];
  }
  int f = 0;
  for (size_t k = 0; k < b.size(); ++k) {
    int e = b[k], x = c[s.size() - b.size() + k];
    f = f * e + (e == 1 ? 0 : x);
  }
  return f;
}
static void run(Chooser &ch, Pair &a, Pair &b, const char *what) {
  LOG("a += b");
  std::vector<num> r;
  for (int i = 0; i < a.m.n(); ++i)
    r.push_back(add_into(a.m.dt, a.m.at(i), b.m.dt, b.m.at(bpos(i, a.m.shape, b.m.shape))));
  Tensor &self = a.t += b.t;
  if (&self != &a.t)
    fail("+= does not return its left operand");
  for (int i = 0; i < a.m.n(); ++i)
    a.m.buf->v[a.m.idx[i]] = r[i];
  check(a, what);
  ch.step();
  ch.state(hash_u64(h_model(a.m), h_model(b.m)));
  ch.outcome(h_model(a.m));
}
SPACE("layout-pairs", "14x14 layouts x 8 shape pairs (right side broadcast to the left) x 36 "
                      "dtype pairs; applied twice; type and size of the left kept") {
  static const std::vector<std::pair<Shape, Shape>> sp = {
      {{}, {}}, {{3}, {}}, {{3}, {3}}, {{2, 3}, {3}}, {{2, 3}, {2, 1}}, {{2, 3}, {2, 3}}, {{2, 3, 2}, {3, 1}}, {{0, 2}, {2}}};
  int la = ch.pick(N_LAYOUTS), lb = ch.pick(N_LAYOUTS);
  auto &s = ch.of(sp);
  if (!layout_ok(la, s.first) || !layout_ok(lb, s.second))
    ch.prune();
  ch.shard();
  types ta = ch.of(ALL_TYPES), tb = ch.of(ALL_TYPES);
  Pair a = make_layout(la, s.first, ta, iota_vals(numel(s.first), ta, 1));
  Pair b = make_layout(lb, s.second, tb, iota_vals(numel(s.second), tb, 2));
  run(ch, a, b, "after +=");
  check(b, "right operand");
  run(ch, a, b, "after += twice");
  check(b, "right operand");
}
SPACE("shapes", "all shape pairs of rank 0..3 over {0,1,2,3} and rank 4 x 0..4 over {1,2} "
                "where the right broadcasts to the left") {
  static const auto s3 = shapes(0, 3, {0, 1, 2, 3});
  static const auto s4 = shapes(4, 4, {1, 2});
  static const auto s04 = shapes(0, 4, {1, 2});
  int kind = ch.pick(2);
  const Shape &x = kind ? ch.of(s4) : ch.of(s3);
  ch.shard();
  const Shape &y = kind ? ch.of(s04) : ch.of(s3);
  if (!fits_into(x, y))
    ch.prune();
  for (int k = 0; k < 3; ++k) {
    types ta = ALL_TYPES[(x.size() + y.size() * 2 + k * 2) % 6];
    types tb = ALL_TYPES[(numel(y) + k) % 6];
    Pair a = q_new(x, ta, iota_vals(numel(x), ta, 1));
    Pair b = q_new(y, tb, iota_vals(numel(y), tb, 2));
    run(ch, a, b, "after +=");
    check(b, "right operand");
  }
}
SPACE("shape-layout pairs", "all shape pairs of rank 0..3 over {1,2,3} where the right broadcasts to "
                            "the left x 14x14 layouts, dtypes by position") {
  static const auto s3 = shapes(0, 3, is_thorough() ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{1, 2, 3});
  const Shape &x = ch.of(s3);
  const Shape &y = ch.of(s3);
  if (!fits_into(x, y))
    ch.prune();
  ch.shard();
  int la = ch.pick(N_LAYOUTS), lb = ch.pick(N_LAYOUTS);
  if (!layout_ok(la, x) || !layout_ok(lb, y))
    ch.prune();
  types ta = ALL_TYPES[(la + lb * 2 + numel(x)) % 6], tb = ALL_TYPES[(lb + numel(y)) % 6];
  Pair a = make_layout(la, x, ta, iota_vals(numel(x), ta, 1));
  Pair b = make_layout(lb, y, tb, iota_vals(numel(y), tb, 2));
  run(ch, a, b, "after +=");
  check(b, "right operand");
}
SPACE("values", "36 dtype pairs x all pairs of edge values whose sum the left type can hold") {
  types ta = ch.of(ALL_TYPES), tb = ch.of(ALL_TYPES);
  ch.shard();
  for (num x : edge_vals(ta))
    for (num y : edge_vals(tb))
      if (in_range(ta, x, tb, y)) {
        Pair a = q_new({2}, ta, {x, 1}), b = q_new({}, tb, {y});
        if (!in_range(ta, 1, tb, y))
          continue;
        run(ch, a, b, "after +=");
      }
}
SPACE("dense pairs", "36 dtype pairs x all 256x256 pairs of values (every byte value of integers, every sign/4-bit exponent/3-bit mantissa of "
                     "floating types) whose sum the left type can hold") {
  types ta = ch.of(ALL_TYPES), tb = ch.of(ALL_TYPES);
  auto vb = dense_vals(tb);
  num y = ch.of(vb);
  if (is_asan() && !is_thorough() && ta != tb)
    ch.prune();
  ch.shard();
  std::vector<num> v;
  for (num x : dense_vals(ta))
    if (in_range(ta, x, tb, y))
      v.push_back(x);
  Pair a = q_new({static_cast<int>(v.size())}, ta, v), b = q_new({}, tb, {y});
  run(ch, a, b, "after +=");
}
SPACE("lines", "every line extent and wide shape x 6 dtypes: += same shape, scalar, and "
               "itself") {
  static const auto ss = [] {
    std::vector<Shape> v = wide_shapes();
    for (int n : line_sizes())
      v.push_back({n});
    return v;
  }();
  const Shape &s = ch.of(ss);
  types ta = ch.of(ALL_TYPES);
  ch.shard();
  types tb = ALL_TYPES[(ta + s[0]) % 6];
  Pair a = q_new(s, ta, iota_vals(numel(s), ta, 1));
  Pair b = q_new(s, tb, iota_vals(numel(s), tb, 2)), c = q_new({}, tb, {1});
  run(ch, a, b, "a += b");
  run(ch, a, c, "a += 1");
  LOG("a += a");
  run(ch, a, a, "a += a");
  check(b, "b");
  check(c, "c");
}
SPACE("histories", "every sequence of 4 (thorough 5) in-place additions among a base, a view "
                   "of it, a detached handle and an independent tensor (right side a copy "
                   "or a constant), dtype i32 and f64, 4 views") {
  static const std::vector<std::vector<Sl>> vs = {
      {sl({}, {}, -1)}, {sl(1), sl({}, {}, 2)}, {sl_i(1)}, {sl(), sl_i(-1)}};
  types dt = ch.flip() ? INNC::f64 : INNC::i32;
  auto &v = ch.of(vs);
  int depth = is_thorough() ? 5 : 4;
  Pair a = q_new({2, 3}, dt, iota_vals(6, dt, 1));
  Pair p = q_slice(a, v), d = q_detach(a);
  Pair i = q_new({2, 3}, dt, iota_vals(6, dt, 4));
  Pair one = q_new({}, dt, {1});
  for (int k = 0; k < depth; ++k) {
    int w = ch.pick(4), r = ch.pick(3);
    if (k == 0)
      ch.shard();
    Pair &l = w == 0 ? a : w == 1 ? p : w == 2 ? d : i;
    if (r == 0)
      run(ch, l, one, "after += 1");
    else if (r == 1) {
      Pair c = q_clone(l);
      run(ch, l, c, "after += copy of itself");
    } else
      run(ch, l, l, "after += itself");
    check(a, "base");
    check(p, "view");
    check(d, "detached handle");
    check(i, "independent tensor");
  }
}
SPACE("chained", "(a += b) += c and expressions on the right: a += b * c, a += b.sum(), a += "
                 "a[...] copies, 6 dtypes x 4 shapes") {
  static const std::vector<Shape> ss = {{}, {3}, {2, 3}, {2, 2, 2}};
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  const Shape &s = ch.of(ss);
  Pair a = q_new(s, dt, iota_vals(numel(s), dt, 1));
  Pair b = q_new(s, dt, std::vector<num>(numel(s), 2)), c = q_new({}, dt, {1});
  LOG("(a += b) += c");
  (a.t += b.t) += c.t;
  for (auto &v : a.m.buf->v)
    v = convert(v + 3, dt);
  check(a, "(a += b) += c");
  Pair bc = q_bin(MUL, b, c);
  run(ch, a, bc, "a += b * c");
  Pair mx = q_max(b);
  run(ch, a, mx, "a += b.max()");
  Pair cl = q_clone(a);
  Pair h = q_handle(a);
  run(ch, h, c, "handle += c");
  check(a, "original after += through a second handle");
  check(cl, "clone after the original was modified");
  check(b, "b");
  ch.step(3);
}

SPACE("same elements", "14 layouts x shapes of rank 0..3 over {1,2,3} x 6 dtypes: += another handle of exactly the same elements (detached, sliced whole, "
                       "transposed or reversed twice): every element doubles once") {
  static const auto ss = shapes(0, 3, {1, 2, 3});
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  for (types dt : ALL_TYPES)
    for (int how = 0; how < 4; ++how) {
      std::vector<num> v;
      for (int i = 0; i < numel(s); ++i)
        v.push_back(1 + i % 5); // doubles fit every type
      Pair a = make_layout(k, s, dt, v), b;
      if (how == 0)
        b = q_detach(a);
      else if (how == 1 && !s.empty())
        b = q_slice(a, {sl()});
      else if (how == 2 && s.size() > 1) {
        Pair t = q_transpose(a, 0, static_cast<int>(s.size()) - 1);
        b = q_transpose(t, 0, static_cast<int>(s.size()) - 1);
      } else if (how == 3 && !s.empty()) {
        Pair t = q_slice(a, {sl({}, {}, -1)});
        b = q_slice(t, {sl({}, {}, -1)});
      } else
        continue;
      run(ch, a, b, "after += the same elements");
      check(b, "the other handle");
      run(ch, b, a, "after += the other way round");
      check(a, "the first handle");
    }
}
SPACE("disjoint views", "left and right are views of one base without a common element (rows, halves, even and odd, last dimension) x {row, column} base x 36 "
                        "dtypes by cast: only the left elements change") {
  static const std::vector<std::pair<std::vector<Sl>, std::vector<Sl>>> vs = {
      {{sl_i(0)}, {sl_i(1)}}, {{sl_i(1)}, {sl_i(0)}}, {{sl(0, 2)}, {sl(2, 4)}}, {{sl({}, {}, 2)}, {sl(1, {}, 2)}},
      {{sl(1, {}, 2)}, {sl({}, {}, 2)}}, {{sl({}, {}, -2)}, {sl({}, {}, 2)}}, {{sl(), sl(0, 1)}, {sl(), sl(1, 2)}},
      {{sl(), sl(2)}, {sl(), sl_i(0)}}, {{sl(0, 2), sl(0, 2)}, {sl(2, 4), sl(2, 4)}}, {{sl(1)}, {sl_i(0)}}};
  auto &v = ch.of(vs);
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  for (int tr = 0; tr < 2; ++tr)
    for (int twice = 0; twice < 2; ++twice) {
      Pair base = q_new({4, 4}, dt, iota_vals(16, dt, 1));
      Pair b2 = tr ? q_transpose(base, 0, 1) : q_handle(base);
      Pair l = q_slice(b2, v.first), r = q_slice(b2, v.second);
      if (!fits_into(l.m.shape, r.m.shape))
        continue;
      run(ch, l, r, "left view after +=");
      check(r, "right view");
      check(base, "base");
      if (twice) {
        run(ch, l, r, "left view after += twice");
        check(base, "base");
      }
    }
}

SUCCESSIONS(18)

HIGH_RANKS(18)
