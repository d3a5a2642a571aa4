// C01: construction.
#include "ranks.hpp"
#include "model.hpp"
#include "succ.hpp"
using namespace mc;

static const std::vector<Shape> &small_shapes() {
  static const auto v = shapes(0, 3, {0, 1, 2, 3});
  return v;
}
static const std::vector<Shape> &all_shapes() {
  static const auto v = [] {
    auto r = small_shapes();
    for (auto &s : wide_shapes())
      r.push_back(s);
    for (int n : line_sizes())
      r.push_back({n});
    return r;
  }();
  return v;
}
static void expect(Chooser &ch, const Tensor &t, const MT &m, const char *what) {
  check(t, m, what);
  if (t.requires_grad())
    fail(fmt("%s: a fresh tensor requires grad", what));
  if (!t.is_contiguous())
    fail(fmt("%s: a fresh tensor is not contiguous", what));
  check_grad(t, m.dt, m.shape, {}, what);
  ch.step();
  ch.state(h_model(m));
  ch.outcome(h_model(m));
}
static std::vector<num> rep(int n, num v) { return std::vector<num>(n, v); }
static void dirty(size_t bytes) { // leave garbage in the allocator
  Tensor a = Tensor::full({bytes + 1}, std::int64_t(-77), INNC::i8);
  Tensor b = Tensor::full({bytes}, std::int64_t(99), INNC::i8);
}

SPACE("fill", "zeros, ones, full(int), full(double), (sizes,dtype) x shapes rank 0..3 "
              "over {0,1,2,3}, wide shapes, all line extents x 6 dtypes x fill values, "
              "after memory of the same size was dirtied and freed") {
  const Shape &s = ch.of(all_shapes());
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  int n = numel(s);
  dirty(n * tsize(dt));
  LOG("zeros(%s,%s)", sstr(s).c_str(), tname(dt));
  expect(ch, Tensor::zeros(sv(s), dt), m_new(s, dt, rep(n, 0)), "zeros");
  dirty(n * tsize(dt));
  LOG("ones");
  expect(ch, Tensor::ones(sv(s), dt), m_new(s, dt, rep(n, 1)), "ones");
  expect(ch, INNC::zeros(sv(s), dt), m_new(s, dt, rep(n, 0)), "INNC::zeros");
  expect(ch, INNC::ones(sv(s), dt), m_new(s, dt, rep(n, 1)), "INNC::ones");
  for (std::int64_t v : {-3, 5, 127}) {
    LOG("full int %ld", v);
    expect(ch, Tensor::full(sv(s), v, dt), m_new(s, dt, rep(n, v)), "full(int)");
  }
  for (double v : {2.0, -1.5, 100.25}) {
    LOG("full double %g", v);
    expect(ch, INNC::full(sv(s), v, dt),
           m_new(s, dt, rep(n, convert(v, dt))), "full(double)");
  }
  Tensor u(sv(s), dt);
  if (u.type() != dt || static_cast<int>(u.numel()) != n || u.dim() != s.size())
    fail("Tensor(sizes, dtype): wrong metadata");
}

SPACE("fill-values", "full with every in-range edge value, integer and floating "
                     "argument, 6 dtypes, shapes {}, {1}, {3}, {2,2}") {
  static const std::vector<Shape> ss = {{}, {1}, {3}, {2, 2}};
  types dt = ch.of(ALL_TYPES);
  const Shape &s = ch.of(ss);
  ch.shard();
  int n = numel(s);
  auto iv = edge_vals(INNC::i64), fv = edge_vals(INNC::f64);
  for (types t : {INNC::i8, INNC::i16, INNC::i32})
    for (num v : edge_vals(t))
      iv.push_back(v);
  for (num v : iv)
    if (fits(v, dt)) {
      LOG("full(%s,%s,int %.0Lf)", sstr(s).c_str(), tname(dt), v);
      expect(ch, Tensor::full(sv(s), static_cast<std::int64_t>(v), dt),
             m_new(s, dt, rep(n, convert(v, dt))), "full(int)");
    }
  for (num v : fv)
    if (fits(v, dt)) {
      LOG("full(%s,%s,double %.6Lf)", sstr(s).c_str(), tname(dt), v);
      expect(ch, Tensor::full(sv(s), static_cast<double>(v), dt),
             m_new(s, dt, rep(n, convert(v, dt))), "full(double)");
    }
}

SPACE("eye", "eye(n,m) n,m in 0..9 and {16,17,40,65}; eye(n); default dtype; 6 dtypes") {
  static const std::vector<int> ns = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 40, 65};
  int n = ch.of(ns), m = ch.of(ns);
  ch.shard();
  types dt = ch.of(ALL_TYPES);
  dirty(n * m * tsize(dt));
  auto vals = [](int n, int m) {
    std::vector<num> v(n * m, 0);
    for (int i = 0; i < n && i < m; ++i)
      v[i * m + i] = 1;
    return v;
  };
  LOG("eye(%d,%d,%s)", n, m, tname(dt));
  expect(ch, Tensor::eye(n, m, dt), m_new({n, m}, dt, vals(n, m)), "eye(n,m)");
  if (n == m) {
    expect(ch, Tensor::eye(n, dt), m_new({n, n}, dt, vals(n, n)), "eye(n,dtype)");
    expect(ch, Tensor::eye(static_cast<size_t>(n)),
           m_new({n, n}, INNC::i8, vals(n, n)), "eye(n)");
  }
}

SPACE("from_blob", "from_blob x shapes rank 0..3 over {0,1,2,3}, wide shapes, line "
                   "extents x 6 dtypes; the buffer is overwritten and freed afterwards") {
  const Shape &s = ch.of(all_shapes());
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  auto v = iota_vals(numel(s), dt, 4);
  auto e = edge_vals(dt);
  for (size_t i = 0; i < v.size(); i += 2)
    v[i] = e[(i / 2) % e.size()];
  MT m = m_new(s, dt, v);
  size_t bytes = v.size() * tsize(dt);
  std::unique_ptr<unsigned char[]> buf(new unsigned char[bytes + 1]);
  {
    Tensor tmp = r_new(s, dt, v);
    (void)tmp;
  }
  auto fill = [&] {
    for (size_t i = 0; i < v.size(); ++i) {
      unsigned char *p = buf.get() + i * tsize(dt);
      switch (dt) {
      case INNC::i8: { std::int8_t x = v[i]; memcpy(p, &x, 1); break; }
      case INNC::i16: { std::int16_t x = v[i]; memcpy(p, &x, 2); break; }
      case INNC::i32: { std::int32_t x = v[i]; memcpy(p, &x, 4); break; }
      case INNC::i64: { std::int64_t x = v[i]; memcpy(p, &x, 8); break; }
      case INNC::f32: { float x = v[i]; memcpy(p, &x, 4); break; }
      default: { double x = v[i]; memcpy(p, &x, 8); break; }
      }
    }
  };
  fill();
  LOG("from_blob(%s,%s)", sstr(s).c_str(), tname(dt));
  Tensor t = Tensor::from_blob(buf.get(), sv(s), dt);
  Tensor u = INNC::from_blob(buf.get(), sv(s), dt);
  expect(ch, t, m, "from_blob");
  memset(buf.get(), 0x5a, bytes + 1);
  expect(ch, t, m, "from_blob after the buffer was overwritten");
  buf.reset();
  expect(ch, t, m, "from_blob after the buffer was freed");
  expect(ch, u, m, "second from_blob");
}

SPACE("like", "zeros_like and ones_like of every layout x shapes rank 0..3 over "
              "{0,1,2,3} x 6 dtypes; the result shares nothing with its argument") {
  const Shape &s = ch.of(small_shapes());
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  types dt = ch.of(ALL_TYPES);
  Pair a = make_layout(k, s, dt, iota_vals(numel(s), dt, 1));
  int n = numel(s);
  LOG("zeros_like / ones_like");
  Tensor z = Tensor::zeros_like(a.t), o = INNC::ones_like(a.t);
  Tensor z2 = INNC::zeros_like(a.t), o2 = Tensor::ones_like(a.t);
  expect(ch, z, m_new(s, dt, rep(n, 0)), "zeros_like");
  expect(ch, o, m_new(s, dt, rep(n, 1)), "ones_like");
  z += a.t;
  LOG("z += a; o += o");
  o += o;
  expect(ch, z, m_new(s, dt, iota_vals(n, dt, 1)), "zeros_like then +=");
  expect(ch, o, m_new(s, dt, rep(n, 2)), "ones_like then +=");
  check(a, "argument of zeros_like");
  expect(ch, z2, m_new(s, dt, rep(n, 0)), "other zeros_like");
  expect(ch, o2, m_new(s, dt, rep(n, 1)), "other ones_like");
}

template <typename T> static void scalar_case(Chooser &ch, types dt) {
  auto v = edge_vals(dt);
  for (num x : v) {
    LOG("Tensor(%s %.6Lf)", tname(dt), x);
    Tensor t(static_cast<T>(x));
    expect(ch, t, m_new({}, dt, {x}), "scalar");
    Tensor u;
    u = Tensor(static_cast<T>(x));
    expect(ch, u, m_new({}, dt, {x}), "assigned scalar");
  }
}
SPACE("scalars", "Tensor(value) for the 6 C++ types x edge values") {
  int k = ch.pick(6);
  ch.shard();
  switch (k) {
  case 0: scalar_case<std::int8_t>(ch, INNC::i8); break;
  case 1: scalar_case<std::int16_t>(ch, INNC::i16); break;
  case 2: scalar_case<std::int32_t>(ch, INNC::i32); break;
  case 3: scalar_case<std::int64_t>(ch, INNC::i64); break;
  case 4: scalar_case<float>(ch, INNC::f32); break;
  case 5: scalar_case<double>(ch, INNC::f64); break;
  }
}

template <typename T> static void init_case(Chooser &ch, types dt, int which) {
  using TI = INNC::TensorInit;
  auto V = iota_vals(40, dt, 2);
  auto e = edge_vals(dt);
  for (size_t i = 0; i < e.size(); ++i)
    V[i * 3 % 40] = e[i];
  auto v = [&](int i) { return static_cast<T>(V[i]); };
  auto go = [&](TI init, const Shape &s) {
    LOG("nested initialiser %s %s", sstr(s).c_str(), tname(dt));
    MT m = m_new(s, dt, std::vector<num>(V.begin(), V.begin() + numel(s)));
    if (which % 2) {
      Tensor t = Tensor::full({3}, std::int64_t(9), INNC::i16);
      t = std::move(init);
      expect(ch, t, m, "assigned from an initialiser");
    } else {
      Tensor t(std::move(init));
      expect(ch, t, m, "initialiser");
      Tensor c = t.clone();
      if (numel(s)) {
        t += t.detach().clone();
        check(c, m, "clone of an initialised tensor");
      }
    }
  };
  switch (which / 2) {
  case 0: go(TI{v(0)}, {1}); break;
  case 1: go(TI{v(0), v(1), v(2), v(3), v(4), v(5), v(6)}, {7}); break;
  case 2: go(TI{TI{v(0), v(1)}, TI{v(2), v(3)}}, {2, 2}); break;
  case 3: go(TI{TI{v(0)}, TI{v(1)}, TI{v(2)}}, {3, 1}); break;
  case 4: go(TI{TI{v(0), v(1), v(2)}, TI{v(3), v(4), v(5)}}, {2, 3}); break;
  case 5:
    go(TI{TI{TI{v(0), v(1)}, TI{v(2), v(3)}, TI{v(4), v(5)}},
          TI{TI{v(6), v(7)}, TI{v(8), v(9)}, TI{v(10), v(11)}}},
       {2, 3, 2});
    break;
  case 6:
    go(TI{TI{TI{v(0), v(1), v(2)}}, TI{TI{v(3), v(4), v(5)}},
          TI{TI{v(6), v(7), v(8)}}, TI{TI{v(9), v(10), v(11)}}},
       {4, 1, 3});
    break;
  case 7:
    go(TI{TI{TI{TI{v(0), v(1)}, TI{v(2), v(3)}},
             TI{TI{v(4), v(5)}, TI{v(6), v(7)}}},
          TI{TI{TI{v(8), v(9)}, TI{v(10), v(11)}},
             TI{TI{v(12), v(13)}, TI{v(14), v(15)}}},
          TI{TI{TI{v(16), v(17)}, TI{v(18), v(19)}},
             TI{TI{v(20), v(21)}, TI{v(22), v(23)}}}},
       {3, 2, 2, 2});
    break;
  case 8:
    go(TI{v(0),  v(1),  v(2),  v(3),  v(4),  v(5),  v(6),  v(7),  v(8),  v(9),
          v(10), v(11), v(12), v(13), v(14), v(15), v(16), v(17), v(18), v(19),
          v(20), v(21), v(22), v(23), v(24), v(25), v(26), v(27), v(28), v(29),
          v(30), v(31), v(32)},
       {33});
    break;
  }
}
SPACE("initialisers", "9 nested initialiser shapes up to rank 4 x construct/assign x 6 "
                      "C++ types, edge values") {
  int k = ch.pick(6);
  ch.shard();
  int w = ch.pick(18);
  switch (k) {
  case 0: init_case<std::int8_t>(ch, INNC::i8, w); break;
  case 1: init_case<std::int16_t>(ch, INNC::i16, w); break;
  case 2: init_case<std::int32_t>(ch, INNC::i32, w); break;
  case 3: init_case<std::int64_t>(ch, INNC::i64, w); break;
  case 4: init_case<float>(ch, INNC::f32, w); break;
  case 5: init_case<double>(ch, INNC::f64, w); break;
  }
}

// a tensor of shape s from one of the factories; v: the value for the fillers
template <typename T> static Tensor scalar_of(num v) { return Tensor(static_cast<T>(v)); }
static Tensor scalar_of(types dt, num v) {
  switch (dt) {
  case INNC::i8: return scalar_of<std::int8_t>(v);
  case INNC::i16: return scalar_of<std::int16_t>(v);
  case INNC::i32: return scalar_of<std::int32_t>(v);
  case INNC::i64: return scalar_of<std::int64_t>(v);
  case INNC::f32: return scalar_of<float>(v);
  default: return scalar_of<double>(v);
  }
}
template <typename T> static Tensor init4(num v) {
  T x = static_cast<T>(v);
  return Tensor(INNC::TensorInit{x, x, x, x});
}
static Tensor init4(types dt, num v) {
  switch (dt) {
  case INNC::i8: return init4<std::int8_t>(v);
  case INNC::i16: return init4<std::int16_t>(v);
  case INNC::i32: return init4<std::int32_t>(v);
  case INNC::i64: return init4<std::int64_t>(v);
  case INNC::f32: return init4<float>(v);
  default: return init4<double>(v);
  }
}
SPACE("independence", "every ordered pair of 9 factories (zeros, ones, full with an integer or a floating value, from_blob, zeros_like, "
                      "ones_like, eye, scalar or initialiser) with the values 0, 1, -1, 2, 3, 100 at 7 shapes x 6 dtypes: modifying one "
                      "result in place leaves the other, and those made later, exact") {
  static const std::vector<Shape> ss = {{}, {1}, {4}, {2, 3}, {2, 2}, {2, 2, 2}, {65}};
  static const std::vector<num> vs = {0, 1, -1, 2, 3, 100};
  const Shape &s = ch.of(ss);
  types dt = ch.of(ALL_TYPES);
  int f1 = ch.pick(9);
  ch.shard();
  int f2 = ch.pick(9);
  auto fills = [](int f) { return f == 2 || f == 3 || f == 4 || f == 8; };
  if ((f1 == 7 || f2 == 7) && s.size() != 2)
    ch.prune();
  if ((f1 == 8 || f2 == 8) && s != Shape{} && s != Shape{4})
    ch.prune();
  num v = fills(f1) || fills(f2) ? ch.of(vs) : 0;
  int n = numel(s);
  Tensor like = r_new(s, dt, rep(n, 7));
  auto mk = [&](int f) -> Pair {
    switch (f) {
    case 0: return {Tensor::zeros(sv(s), dt), m_new(s, dt, rep(n, 0))};
    case 1: return {Tensor::ones(sv(s), dt), m_new(s, dt, rep(n, 1))};
    case 2: return {Tensor::full(sv(s), std::int64_t(v), dt), m_new(s, dt, rep(n, v))};
    case 3: return {Tensor::full(sv(s), double(v), dt), m_new(s, dt, rep(n, v))};
    case 4: return {r_new(s, dt, rep(n, v)), m_new(s, dt, rep(n, v))};
    case 5: return {Tensor::zeros_like(like), m_new(s, dt, rep(n, 0))};
    case 6: return {Tensor::ones_like(like), m_new(s, dt, rep(n, 1))};
    case 7: {
      std::vector<num> e;
      for (int i = 0; i < s[0]; ++i)
        for (int j = 0; j < s[1]; ++j)
          e.push_back(i == j);
      return {Tensor::eye(s[0], s[1], dt), m_new(s, dt, e)};
    }
    default:
      return {s.empty() ? scalar_of(dt, v) : init4(dt, v), m_new(s, dt, rep(n, v))};
    }
  };
  LOG("factories %d and %d with %.0Lf, shape %s %s", f1, f2, v, sstr(s).c_str(), tname(dt));
  Pair a = mk(f1), b = mk(f2), a2 = mk(f1);
  check(a, "first tensor");
  a.t += r_new({}, dt, {1});
  check(b, "second tensor after the first was modified");
  check(a2, "the same tensor made again, after the first was modified");
  Pair c = mk(f1), d = mk(f2);
  check(c, "third tensor");
  check(d, "fourth tensor");
  b.t += r_new({}, dt, {5});
  b.t += a2.t;
  check(c, "third tensor after the second was modified");
  check(d, "fourth tensor after the second was modified");
  check(a2, "first one made again after the second was modified");
  ch.step(8);
  ch.state(hash_u64(h_model(a.m), h_model(b.m)));
}

// Initialiser lists have a length fixed at compile time: these are generated.
template <typename T, size_t... I>
static Tensor long_list(const std::vector<num> &v, std::index_sequence<I...>) {
  return Tensor(INNC::TensorInit{static_cast<T>(v[I])...});
}
template <typename T, size_t... I>
static Tensor long_rows(const std::vector<num> &v, std::index_sequence<I...>) {
  using TI = INNC::TensorInit;
  return Tensor(TI{TI{static_cast<T>(v[2 * I]), static_cast<T>(v[2 * I + 1])}...});
}
template <typename T> static void long_case(Chooser &ch, types dt, int w) {
  auto go = [&](auto n, bool rows) {
    constexpr size_t N = decltype(n)::value;
    auto v = iota_vals(static_cast<int>(rows ? 2 * N : N), dt, 1);
    LOG("initialiser of %zu %s", N, rows ? "rows" : "elements");
    Tensor t = rows ? long_rows<T>(v, std::make_index_sequence<N>{}) : long_list<T>(v, std::make_index_sequence<N>{});
    Shape s{static_cast<int>(N)};
    if (rows)
      s.push_back(2);
    expect(ch, t, m_new(s, dt, v), "long initialiser");
  };
  bool rows = w % 2;
  switch (w / 2) {
  case 0: go(std::integral_constant<size_t, 127>{}, rows); break;
  case 1: go(std::integral_constant<size_t, 128>{}, rows); break;
  case 2: go(std::integral_constant<size_t, 256>{}, rows); break;
  case 3: go(std::integral_constant<size_t, 257>{}, rows); break;
  default: go(std::integral_constant<size_t, 600>{}, rows); break;
  }
}
SPACE("long initialisers", "initialisers of 127, 128, 256, 257 and 600 elements, and of as many rows x 6 C++ types") {
  int k = ch.pick(6);
  ch.shard();
  int w = ch.pick(10);
  switch (k) {
  case 0: long_case<std::int8_t>(ch, INNC::i8, w); break;
  case 1: long_case<std::int16_t>(ch, INNC::i16, w); break;
  case 2: long_case<std::int32_t>(ch, INNC::i32, w); break;
  case 3: long_case<std::int64_t>(ch, INNC::i64, w); break;
  case 4: long_case<float>(ch, INNC::f32, w); break;
  case 5: long_case<double>(ch, INNC::f64, w); break;
  }
}
SPACE("bit values", "scalars, buffers and full (integer and floating argument) with every +-2^k, +-2^k+-1 of each of the 6 dtypes") {
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  auto v = bit_vals(dt);
  int n = static_cast<int>(v.size());
  LOG("from_blob of %d values, %s", n, tname(dt));
  Tensor t = r_new({n}, dt, v);
  expect(ch, t, m_new({n}, dt, v), "from_blob");
  for (num x : v) {
    LOG("full with %.6Lf", x);
    if (x == std::floor(x) && std::fabs(x) < 9223372036854775807.0L)
      expect(ch, Tensor::full({2}, static_cast<std::int64_t>(x), dt), m_new({2}, dt, {x, x}), "full(integer)");
    if (static_cast<num>(static_cast<double>(x)) == x)
      expect(ch, Tensor::full({2}, static_cast<double>(x), dt), m_new({2}, dt, {x, x}), "full(floating)");
  }
}

SUCCESSIONS(1)

HIGH_RANKS(1)
