// C09: element type conversion.
#include "ranks.hpp"
#include "views.hpp"
#include "again.hpp"
#include "succ.hpp"
using namespace mc;
static void conv(Chooser &ch, Pair &a, types to) {
  LOG("a.type(%s)", tname(to));
  MT m = m_cast(a.m, to);
  Tensor r = a.t.type(to);
  check(r, m, fmt("%s to %s", tname(a.m.dt), tname(to)).c_str());
  check(a, "argument of a cast");
  if (a.t.type() != a.m.dt)
    fail("the cast changed its argument's type");
  if (r.requires_grad() != a.t.requires_grad())
    fail("the cast changed requires_grad");
  ch.step();
  ch.state(hash_u64(h_model(a.m), to));
  ch.outcome(h_model(m));
}
SPACE("values", "36 dtype pairs x every edge value of the source and of the target that the "
                "source can hold and every +-2^k, +-2^k+-1 (integers wrap, floating values in "
                "range only), fractions toward zero") {
  types from = ch.of(ALL_TYPES), to = ch.of(ALL_TYPES);
  ch.shard();
  std::vector<num> vs = edge_vals(from);
  for (types t : ALL_TYPES)
    for (num v : edge_vals(t))
      if (fits(v, from) && (isf(from) || v == std::trunc(v)))
        vs.push_back(convert(v, from));
  for (num v : bit_vals(from))
    vs.push_back(v);
  if (isf(from))
    for (num v : {0.25L, -0.25L, 0.9990234375L, -0.9990234375L, 1.5L, -1.5L, 2.5L, 126.75L,
                  -127.75L, 32766.5L, 8388607.5L, -128.5L, 127.5L})
      vs.push_back(v);
  for (num v : vs) {
    if (isf(from) && !fits(v, to))
      continue;
    Pair a = q_new({}, from, {v});
    conv(ch, a, to);
    Pair b = q_new({2, 2}, from, {1, v, v, 0});
    conv(ch, b, to);
  }
}
SPACE("dense values", "36 dtype pairs x every i8 and every i16 value, every byte value of i32 and i64 at every byte position, and for "
                      "floating sources every exponent with the 7 leading mantissa bits the target can hold") {
  types from = ch.of(ALL_TYPES), to = ch.of(ALL_TYPES);
  int parts = from == INNC::i16 || from == INNC::f32 ? 64 : from == INNC::f64 ? 8 : from == INNC::i8 ? 1 : static_cast<int>(tsize(from));
  int part = ch.pick(parts);
  ch.shard();
  std::vector<num> v;
  if (from == INNC::i16)
    for (int i = 0; i < 1024; ++i)
      v.push_back(-32768 + part * 1024 + i);
  else if (from == INNC::f32)
    for (int i = 0; i < 1024; ++i) {
      std::uint32_t u = static_cast<std::uint32_t>(part * 1024 + i) << 16;
      float f;
      std::memcpy(&f, &u, 4);
      v.push_back(f);
    }
  else if (from == INNC::f64)
    for (int i = 0; i < 8192; ++i) { // sign, 11 exponent, 4 mantissa bits
      std::uint64_t u = static_cast<std::uint64_t>(part * 8192 + i) << 48;
      double f;
      std::memcpy(&f, &u, 8);
      v.push_back(f);
    }
  else
    for (num x : dense_vals(from))
      v.push_back(std::ldexp(x, 8 * part));
  if (isf(from))
    std::erase_if(v, [&](num x) { return !(fits(x, to) || (std::isnan(x) && isf(to))); });
  Pair a = q_new({static_cast<int>(v.size())}, from, v);
  conv(ch, a, to);
}
SPACE("layouts", "36 dtype pairs x 14 layouts x shapes of rank 0..3 over {0,1,2,3}") {
  static const auto ss = shapes(0, 3, {0, 1, 2, 3});
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  types from = ch.of(ALL_TYPES);
  Pair a = make_layout(k, s, from, iota_vals(numel(s), from, 1));
  for (types to : ALL_TYPES)
    conv(ch, a, to);
}
SPACE("sizes", "36 dtype pairs x every line extent and wide shape") {
  static const auto ss = [] {
    std::vector<Shape> v = wide_shapes();
    for (int n : line_sizes())
      v.push_back({n});
    return v;
  }();
  const Shape &s = ch.of(ss);
  types from = ch.of(ALL_TYPES);
  ch.shard();
  Pair a = q_new(s, from, iota_vals(numel(s), from, 1));
  for (types to : ALL_TYPES)
    conv(ch, a, to);
}
SPACE("chains", "every chain of three casts over 6 dtypes, starting from values exact in "
                "i8 and from fractions; views of casts and casts of views") {
  types t0 = ch.of(ALL_TYPES), t1 = ch.of(ALL_TYPES);
  ch.shard();
  types t2 = ch.of(ALL_TYPES), t3 = ch.of(ALL_TYPES);
  Pair a = q_new({2, 3}, t0, iota_vals(6, t0, 2));
  Pair b = q_cast(a, t1), c = q_cast(b, t2), d = q_cast(c, t3);
  check(b, "first cast");
  check(c, "second cast");
  check(d, "third cast");
  Pair v = q_transpose(b, 0, 1);
  Pair w = q_cast(v, t2);
  check(w, "cast of a transposed cast");
  Pair x = q_slice(w, {sl({}, {}, -1), sl_i(1)});
  Pair y = q_cast(x, t3);
  check(y, "cast of a slice");
  check(a, "original");
  ch.step(6);
  ch.state(hash_u64(hash_u64(t0 * 6 + t1, t2), t3));
  ch.outcome(h_model(d.m));
}
SPACE("independence", "a cast to another type owns its elements: += on either side, 30 "
                      "dtype pairs x 14 layouts x 4 shapes") {
  static const std::vector<Shape> ss = {{}, {4}, {2, 3}, {2, 2, 2}};
  types from = ch.of(ALL_TYPES), to = ch.of(ALL_TYPES);
  if (from == to)
    ch.prune();
  ch.shard();
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  Pair a = make_layout(k, s, from, iota_vals(numel(s), from, 1));
  Pair c = q_cast(a, to);
  LOG("c += 1");
  c.t += Tensor::ones({}, to);
  check(a, "original after its cast was modified");
  MT cm = c.m;
  for (auto &v : cm.buf->v)
    v += 1;
  LOG("a += 1");
  a.t += Tensor::ones({}, from);
  check(c.t, cm, "cast after the original was modified");
  ch.step(3);
  ch.state(hash_u64(h_model(a.m), to));
}

SUCCESSIONS(9)
AGAIN(9)

HIGH_RANKS(9)
