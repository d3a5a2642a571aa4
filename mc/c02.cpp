// C02: elementwise arithmetic under broadcasting and promotion.
#include "ranks.hpp"
#include "model.hpp"
#include "again.hpp"
#include "succ.hpp"
using namespace mc;

static void run_bin(Chooser &ch, Op op, const Pair &a, const Pair &b) {
  LOG("r = a %s b", op_str[op]);
  MT m = m_bin(op, a.m, b.m);
  Tensor r = r_bin(op, a.t, b.t);
  ch.step();
  check(r, m, "result");
  check(a.t, a.m, "left operand after the operation");
  check(b.t, b.m, "right operand after the operation");
  ch.state(hash_u64(h_model(a.m), hash_u64(h_model(b.m), op)));
  ch.outcome(h_model(m));
}
// divisors: powers of two, so that quotients stay exact
static std::vector<num> divisor_vals(int n, types dt) {
  static const num f[] = {1, -2, 4, -1, 2, -4, 8, 0.5L, -0.25L};
  static const num g[] = {1, -2, 3, -1, 5, 7, -4, 2, 6};
  std::vector<num> v;
  for (int i = 0; i < n; ++i)
    v.push_back(isf(dt) ? f[i % 9] : g[i % 9]);
  return v;
}

SPACE("layout-pairs",
      "operand layouts 14x14 x 14 broadcast shape pairs x 36 dtype pairs x 4 ops") {
  static const std::vector<std::pair<Shape, Shape>> sp = {
      {{}, {}},        {{3}, {}},        {{}, {2, 3}},       {{3}, {3}},
      {{2, 3}, {3}},   {{2, 1}, {3}},    {{2, 3}, {2, 3}},   {{2, 1}, {1, 3}},
      {{1}, {2, 2}},   {{2, 3, 2}, {3, 1}}, {{2, 1, 2}, {3, 1}}, {{2, 2, 2}, {2, 2, 2}},
      {{0, 2}, {2}},   {{2, 0}, {2, 0}}};
  int la = ch.pick(N_LAYOUTS), lb = ch.pick(N_LAYOUTS);
  auto &s = ch.of(sp);
  if (!layout_ok(la, s.first) || !layout_ok(lb, s.second))
    ch.prune();
  ch.shard();
  types ta = ch.of(ALL_TYPES), tb = ch.of(ALL_TYPES);
  Pair a = make_layout(la, s.first, ta, iota_vals(numel(s.first), ta, 1));
  Pair b = make_layout(lb, s.second, tb, divisor_vals(numel(s.second), tb));
  for (int op = 0; op < 4; ++op)
    run_bin(ch, static_cast<Op>(op), a, b);
}

static const std::vector<Op> OPS = {ADD, SUB, MUL, DIV};
static bool exact_ok(Op op, types r, num a, num b) {
  // i32/i64 overflow and INT_MIN / -1 are undefined in C++; integer division
  // by zero belongs to another property
  if (isf(r))
    return true;
  if (op == DIV && b == 0)
    return false;
  __int128 x = static_cast<std::int64_t>(a), y = static_cast<std::int64_t>(b);
  __int128 z = op == ADD   ? x + y
               : op == SUB ? x - y
               : op == MUL ? x * y
                           : x / y;
  if (r == INNC::i8 || r == INNC::i16)
    return true; // computed in int, then stored modulo 2^n
  __int128 lim = static_cast<__int128>(1) << (8 * tsize(r) - 1);
  return z >= -lim && z < lim;
}

SPACE("value-pairs", "36 dtype pairs x 4 ops x all pairs from the edge values of "
                     "both dtypes (extremes, 2^24+1, 2^53+1, -0, inf, NaN)") {
  types ta = ch.of(ALL_TYPES), tb = ch.of(ALL_TYPES);
  auto va = edge_vals(ta), vb = edge_vals(tb);
  Op op = ch.of(OPS);
  num a = ch.of(va);
  ch.shard();
  num b = ch.of(vb);
  types r = promote(ta, tb);
  if (!exact_ok(op, r, a, b))
    ch.prune();
  Pair x = q_new({}, ta, {a}), y = q_new({}, tb, {b});
  run_bin(ch, op, x, y);
  Pair x1 = q_new({2}, ta, {1, a}), y1 = q_new({2}, tb, {1, b});
  run_bin(ch, op, x1, y1);
  num w = s_bin(op, ta, a, tb, b);
  if (isf(r) && w == 0) { // the sign of a zero counts too
    num got = observe(r_bin(op, x.t, y.t)).v[0];
    if (got == 0 && std::signbit(got) != std::signbit(w))
      fail(fmt("%.6Lg %s %.6Lg is a zero of the wrong sign", a, op_str[op], b));
    ch.step();
  }
}

SPACE("shape-pairs", "all pairs of shapes of rank 0..3 with extents {0,1,2,3} that "
                     "broadcast, and rank 4 x rank 0..4 over {1,2} x 4 ops x dtype "
                     "pair chosen by position") {
  static const auto s3 = shapes(0, 3, {0, 1, 2, 3});
  static const auto s4 = shapes(4, 4, {1, 2});
  static const auto s04 = shapes(0, 4, {1, 2});
  int kind = ch.pick(3);
  const Shape &a = kind == 0 ? ch.of(s3) : kind == 1 ? ch.of(s4) : ch.of(s04);
  ch.shard();
  const Shape &b = kind == 0 ? ch.of(s3) : kind == 1 ? ch.of(s04) : ch.of(s4);
  if (!bshape(a, b))
    ch.prune();
  int n = numel(a) + 3 * numel(b) + static_cast<int>(a.size());
  for (int op = 0; op < 4; ++op) {
    types ta = ALL_TYPES[(n + op) % 6], tb = ALL_TYPES[(n / 6 + 2 * op) % 6];
    Pair x = q_new(a, ta, iota_vals(numel(a), ta, 2));
    Pair y = q_new(b, tb, divisor_vals(numel(b), tb));
    run_bin(ch, static_cast<Op>(op), x, y);
  }
}

SPACE("shape-layout pairs", "all broadcasting pairs of shapes of rank 0..3 over {1,2,3} (thorough "
                            "{0,1,2,3}) x 14x14 layouts, operation and dtypes by position") {
  static const auto s3 = shapes(0, 3, is_thorough() ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{1, 2, 3});
  const Shape &a = ch.of(s3);
  const Shape &b = ch.of(s3);
  if (!bshape(a, b))
    ch.prune();
  ch.shard();
  int la = ch.pick(N_LAYOUTS), lb = ch.pick(N_LAYOUTS);
  if (!layout_ok(la, a) || !layout_ok(lb, b))
    ch.prune();
  if (is_asan() && !is_thorough() && la && lb)
    ch.prune();
  int n = la * 5 + lb + numel(a) + 3 * numel(b);
  types ta = ALL_TYPES[n % 6], tb = ALL_TYPES[(n / 6 + lb) % 6];
  Pair x = make_layout(la, a, ta, iota_vals(numel(a), ta, 1));
  Pair y = make_layout(lb, b, tb, divisor_vals(numel(b), tb));
  run_bin(ch, static_cast<Op>((n / 2) % 4), x, y);
  run_bin(ch, static_cast<Op>((n / 2 + 2) % 4), x, y);
}

SPACE("bit values", "36 dtype pairs x 4 ops x every +-2^k, +-2^k+-1 of the left with itself, 1, "
                    "-1, 2, 3, 7 and 10 on the right; scalar and one-element partners of longer operands") {
  types ta = ch.of(ALL_TYPES), tb = ch.of(ALL_TYPES);
  Op op = ch.of(OPS);
  ch.shard();
  for (num a : bit_vals(ta)) {
    std::vector<num> bs = {1, -1, 2, 3, 7, 10};
    if (fits(a, tb) && convert(a, tb) == a)
      bs.push_back(a);
    for (num b : bs) {
      if (!exact_ok(op, promote(ta, tb), a, b))
        continue;
      Pair x = q_new({1}, ta, {a}), y = q_new({}, tb, {b});
      run_bin(ch, op, x, y);
      if (exact_ok(op, promote(ta, tb), b, a))
        run_bin(ch, op, y, x);
      // the same pair in the middle of a longer operand
      Pair x3 = q_new({3}, ta, {1, a, 2}), y1 = q_new({1}, tb, {b});
      if (exact_ok(op, promote(ta, tb), 2, b)) {
        run_bin(ch, op, x3, y);
        run_bin(ch, op, x3, y1);
      }
    }
  }
}

SPACE("dense pairs", "36 dtype pairs x 4 ops x all 256x256 pairs of values: every byte value of integers, every "
                     "sign/4-bit exponent/3-bit mantissa of floating types; one left value against all right values and back") {
  types ta = ch.of(ALL_TYPES), tb = ch.of(ALL_TYPES);
  auto va = dense_vals(ta);
  num a = ch.of(va);
  if (is_asan() && !is_thorough() && ta != tb)
    ch.prune();
  ch.shard();
  for (Op op : OPS) {
    std::vector<num> w;
    for (num b : dense_vals(tb))
      if (exact_ok(op, promote(ta, tb), a, b) && !(op == DIV && b == 0))
        w.push_back(b);
    Pair x = q_new({1}, ta, {a}), y = q_new({static_cast<int>(w.size())}, tb, w);
    run_bin(ch, op, x, y);
    if (op != DIV || a != 0)
      run_bin(ch, op, y, x);
  }
}

SPACE("lines", "1-D extents 0..40 and around powers of two up to 4096 (thorough: "
               "0..300, up to 65536) x 4 ops x 6 dtypes; equal, scalar and "
               "1-element partner on either side") {
  int n = ch.of(line_sizes());
  types ta = ch.of(ALL_TYPES);
  ch.shard();
  types tb = ALL_TYPES[(ta + n) % 6];
  Pair x = q_new({n}, ta, iota_vals(n, ta, 1));
  Pair y = q_new({n}, tb, divisor_vals(n, tb));
  Pair s = q_new({}, tb, {2}), one = q_new({1}, tb, {4});
  for (int op = 0; op < 4; ++op) {
    run_bin(ch, static_cast<Op>(op), x, y);
    run_bin(ch, static_cast<Op>(op), x, s);
    if (n > 0) {
      run_bin(ch, static_cast<Op>(op), x, one);
      run_bin(ch, static_cast<Op>(op), one, y);
    }
    run_bin(ch, static_cast<Op>(op), s, y);
  }
}

SPACE("wide", "larger 2-D/3-D shapes and every shape of rank 4..5 (thorough 7) over "
              "{1,2}: same-shape, row, column, scalar and fully reduced partners") {
  const Shape &s = ch.of(wide_shapes());
  types ta = ch.of(ALL_TYPES);
  ch.shard();
  types tb = ALL_TYPES[(ta * 5 + s.size()) % 6];
  std::vector<Shape> ps = {s, {}, {s.back()}, Shape(s.begin() + 1, s.end())};
  Shape col = s, row = s, mid = s, ones(s.size() + 1, 1);
  col.back() = s.back() ? 1 : 0;
  row[0] = s[0] ? 1 : 0;
  mid[s.size() / 2] = mid[s.size() / 2] ? 1 : 0;
  ps.push_back(col);
  ps.push_back(row);
  ps.push_back(mid);
  if (numel(s))
    ps.push_back(ones);
  Pair x = q_new(s, ta, iota_vals(numel(s), ta, 1));
  Op op = ch.of(OPS);
  for (auto &p : ps) {
    Pair y = q_new(p, tb, divisor_vals(numel(p), tb));
    run_bin(ch, op, x, y);
    if (op != DIV)
      run_bin(ch, op, y, x);
  }
}

SPACE("unary", "negation, unary plus and abs on 14 layouts x shapes of rank 0..3 over "
               "{0,1,2,3} and the wide shapes x 6 dtypes") {
  static const auto ss = [] {
    auto v = shapes(0, 3, {0, 1, 2, 3});
    for (auto &s : wide_shapes())
      v.push_back(s);
    return v;
  }();
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s) || (s.size() > 3 && k > 6))
    ch.prune();
  ch.shard();
  types dt = ch.of(ALL_TYPES);
  Pair a = make_layout(k, s, dt, iota_vals(numel(s), dt, 3));
  LOG("-a");
  check(-a.t, m_neg(a.m), "-a");
  LOG("+a");
  check(+a.t, a.m, "+a");
  LOG("a.abs()");
  check(a.t.abs(), m_abs(a.m), "a.abs()");
  check(a, "operand after the operation");
  ch.step(3);
  ch.state(h_model(a.m));
  ch.outcome(h_model(m_neg(a.m)));
}

SPACE("unary-values", "negation and abs of every edge value of every dtype whose "
                      "result is representable") {
  types dt = ch.of(ALL_TYPES);
  auto vs = edge_vals(dt);
  num v = ch.of(vs);
  ch.shard();
  if (!isf(dt) && !fits(-v, dt))
    ch.prune();
  Pair a = q_new({3}, dt, {v, 1, v});
  LOG("-a");
  check(-a.t, m_neg(a.m), "-a");
  LOG("abs");
  MT m = m_abs(a.m);
  check(a.t.abs(), m, "a.abs()");
  ch.step(2);
  ch.state(h_model(a.m));
  ch.outcome(h_model(m));
}

SPACE("dense unary", "negation and abs of every i8 and i16 value with a representable result, of every byte value of i32 and i64 and of "
                     "every 8-bit floating value") {
  types dt = ch.of(ALL_TYPES);
  int part = ch.pick(dt == INNC::i16 ? 64 : 1);
  ch.shard();
  std::vector<num> v;
  if (dt == INNC::i16)
    for (int i = 0; i < 1024; ++i)
      v.push_back(-32768 + part * 1024 + i);
  else
    v = dense_vals(dt);
  std::erase_if(v, [&](num x) { return !isf(dt) && !fits(-x, dt); });
  Pair a = q_new({static_cast<int>(v.size())}, dt, v);
  LOG("-a, abs a");
  check(-a.t, m_neg(a.m), "-a");
  check(a.t.abs(), m_abs(a.m), "a.abs()");
  ch.step(2);
  ch.state(h_model(a.m));
  ch.outcome(h_model(m_neg(a.m)));
}

SPACE("lines-unary", "negation and abs of 1-D tensors, every extent of the line list x "
                     "6 dtypes, contiguous / reversed / strided") {
  int n = ch.of(line_sizes());
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  for (int k : {0, 3, 4}) {
    Pair a = make_layout(k, {n}, dt, iota_vals(n, dt, 5));
    LOG("-a, abs a");
    check(-a.t, m_neg(a.m), "-a");
    check(a.t.abs(), m_abs(a.m), "a.abs()");
    ch.step(2);
    ch.state(h_model(a.m));
  }
}

SPACE("expressions", "all expressions (a o1 b) o2 c and a o1 (b o2 c), 4x4 ops, over 6 "
                     "broadcast shape triples x 7 dtype triples; operands may repeat") {
  static const std::vector<std::vector<Shape>> tr = {
      {{}, {}, {}},           {{2}, {2}, {2}},       {{2, 1}, {3}, {}},
      {{3}, {2, 3}, {2, 1}}, {{2, 2}, {2, 2}, {2}}, {{2, 1, 2}, {3, 1}, {2}}};
  static const std::vector<std::vector<types>> tt = {
      {INNC::f64, INNC::f64, INNC::f64}, {INNC::f32, INNC::f32, INNC::f32},
      {INNC::i32, INNC::i32, INNC::i32}, {INNC::i8, INNC::i16, INNC::i64},
      {INNC::f32, INNC::i64, INNC::f64}, {INNC::i16, INNC::f32, INNC::i8},
      {INNC::i64, INNC::i64, INNC::f32}};
  auto &s = ch.of(tr);
  auto &t = ch.of(tt);
  Op o1 = ch.of(OPS), o2 = ch.of(OPS);
  ch.shard();
  int assoc = ch.pick(2), rep = ch.pick(3); // rep: all distinct, c is a, c is b
  Pair a = q_new(s[0], t[0], iota_vals(numel(s[0]), t[0], 1));
  Pair b = q_new(s[1], t[1], divisor_vals(numel(s[1]), t[1]));
  Pair c = rep == 0   ? q_new(s[2], t[2], divisor_vals(numel(s[2]), t[2]))
           : rep == 1 ? q_handle(a)
                      : q_handle(b);
  Tol tol(1e-5L, 1e-12L);
  if (assoc == 0) {
    Pair ab = q_bin(o1, a, b);
    run_bin(ch, o2, ab, c);
  } else {
    if (o2 == DIV && !isf(promote(t[1], rep == 0 ? t[2] : c.m.dt)))
      ; // integer quotient may be 0: only as a non-divisor
    Pair bc = q_bin(o2, b, c);
    if (o1 == DIV)
      for (int i = 0; i < bc.m.n(); ++i)
        if (bc.m.at(i) == 0)
          ch.prune();
    run_bin(ch, o1, a, bc);
  }
}

SPACE("self", "an operand with itself (the same handle, a second handle, a view of all of it, an overlapping view) x 6 dtypes x every edge value "
              "x 6 layouts x 4 operations") {
  types dt = ch.of(ALL_TYPES);
  static const std::vector<int> ks = {0, 2, 3, 4, 5, 6};
  int k = ch.of(ks);
  ch.shard();
  for (num v : edge_vals(dt))
    for (int how = 0; how < 4; ++how) {
      Pair a = make_layout(k, {2, 2}, dt, {v, 1, 2, v});
      Pair b = how < 2 ? q_handle(a) : how == 2 ? q_slice(a, {sl()}) : q_transpose(a, 0, 1);
      const Pair &r = how == 0 ? a : b;
      for (Op op : OPS) {
        bool ok = true;
        for (int i = 0; i < 4 && !isf(dt); ++i) {
          num x = a.m.at(i), y = r.m.at(i);
          if (op == DIV)
            ok &= y != 0;
          num z = op == ADD ? x + y : op == SUB ? x - y : op == MUL ? x * y : 0;
          ok &= op == DIV ? fits(y == 0 ? 0 : std::trunc(x / y), dt) : std::fabs(z) < 4e18L && fits(z, dt);
        }
        if (ok)
          run_bin(ch, op, a, r);
      }
    }
}

SUCCESSIONS(2)
AGAIN(2)

HIGH_RANKS(2)
