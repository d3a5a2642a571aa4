// C04: invalid requests are rejected with an exception and change nothing.
#include "ranks.hpp"
#include "model.hpp"
#include "succ.hpp"
using namespace mc;

template <typename F>
static void must_throw(Chooser &ch, const std::string &what, F f) {
  LOG("expect an exception: %s", what.c_str());
  bool std_exc = false, other = false;
  try {
    f();
  } catch (Violation &) {
    throw;
  } catch (std::exception &e) {
    std_exc = true;
    ch.outcome(hash_bytes(1, e.what(), strlen(e.what())));
  } catch (...) {
    other = true;
  }
  if (other)
    fail("not a std::exception: " + what);
  if (!std_exc)
    fail("accepted instead of rejected: " + what);
  ch.step();
}
// operands untouched: value, size, type, flags, gradient
struct Watch {
  const Tensor &t;
  MT m;
  bool rg, rt;
  std::string g;
  Watch(const Pair &p)
      : t(p.t), m(p.m), rg(p.t.requires_grad()), rt(p.t.retain_grad()),
        g(p.t.grad().to_string()) {}
  void unchanged(const char *what) {
    check(t, m, what);
    if (t.requires_grad() != rg || t.retain_grad() != rt)
      fail(fmt("%s: a rejected request changed its flags", what));
    if (t.grad().to_string() != g)
      fail(fmt("%s: a rejected request changed its gradient", what));
  }
};
static void still_works(Chooser &ch) {
  Tensor a = Tensor::full({2}, 2.5, INNC::f64);
  a.requires_grad(true);
  Tensor l = (a * a).sum();
  l.backward();
  check(l, m_new({}, INNC::f64, {12.5L}), "a valid computation after a rejection");
  check_grad(a, INNC::f64, {2}, {5, 5}, "a valid backward after a rejection");
  ch.step(2);
}

SPACE("broadcast", "all ordered pairs of shapes of rank 0..3 over {0,1,2,3} and rank 4 x "
                   "1..4 over {1,2,3} (thorough) that do not broadcast: + - * / the 6 "
                   "comparisons and +=, 4 dtype pairs, contiguous and transposed") {
  static const auto s3 = shapes(1, 3, {0, 1, 2, 3});
  static const auto s4 = shapes(4, 4, is_thorough() ? std::vector<int>{1, 2, 3}
                                                    : std::vector<int>{2, 3});
  static const std::vector<std::pair<types, types>> tt = {
      {INNC::f64, INNC::f64}, {INNC::i8, INNC::i64}, {INNC::f32, INNC::i32},
      {INNC::i16, INNC::f32}};
  int kind = ch.pick(3);
  const Shape &a = kind == 1 ? ch.of(s4) : ch.of(s3);
  ch.shard();
  const Shape &b = kind == 2 ? ch.of(s4) : ch.of(s3);
  if (bshape(a, b))
    ch.prune();
  auto &t = ch.of(tt);
  int lay = ch.pick(2) * 5;
  if (!layout_ok(lay, a) || !layout_ok(lay, b))
    ch.prune();
  Pair x = make_layout(lay, a, t.first, iota_vals(numel(a), t.first, 1));
  Pair y = make_layout(lay, b, t.second, iota_vals(numel(b), t.second, 2));
  Watch wx(x), wy(y);
  std::string ss = sstr(a) + " with " + sstr(b);
  for (int op = 0; op < 4; ++op)
    must_throw(ch, ss + " " + op_str[op],
               [&] { r_bin(static_cast<Op>(op), x.t, y.t); });
  for (int c = 0; c < 6; ++c)
    must_throw(ch, ss + " " + cmp_str[c],
               [&] { r_cmp(static_cast<Cmp>(c), x.t, y.t); });
  must_throw(ch, ss + " +=", [&] { x.t += y.t; });
  wx.unchanged("left operand");
  wy.unchanged("right operand");
  ch.state(hash_u64(h_layout(x.m), h_layout(y.m)));
}

static std::vector<std::vector<int>> bad_sizes() {
  std::vector<std::vector<int>> r;
  std::vector<std::vector<int>> cur = {{}};
  for (int d = 1; d <= 3; ++d) {
    std::vector<std::vector<int>> nx;
    for (auto &c : cur)
      for (int e : {-3, -2, -1, 0, 1, 2, 3, 4, 6, 7}) {
        nx.push_back(c);
        nx.back().push_back(e);
      }
    cur = nx;
    r.insert(r.end(), cur.begin(), cur.end());
  }
  r.push_back({});
  r.push_back({-1, -1, -1, -1});
  r.push_back({2, 1, 2, 5});
  return r;
}
SPACE("reshape", "reshape of shapes of rank 0..3 over {0,1,2,3} to every target of rank "
                 "0..3 over {-3..4,6,7} that names no valid size; contiguous and "
                 "strided; reshape_as") {
  static const auto ss = shapes(0, 3, {0, 1, 2, 3});
  static const auto bs = bad_sizes();
  const Shape &s = ch.of(ss);
  ch.shard();
  int lay = ch.pick(3) * 2; // contiguous, offset, reversed
  if (!layout_ok(lay, s))
    ch.prune();
  Pair a = make_layout(lay, s, INNC::f32, iota_vals(numel(s), INNC::f32, 1));
  Watch w(a);
  int n = numel(s), count = 0;
  for (auto &b : bs) {
    int minus = 0, neg = 0, prod = 1;
    for (int x : b) {
      minus += x == -1;
      neg += x < -1;
      if (x != -1)
        prod *= x;
    }
    bool ok = neg == 0 && minus <= 1 &&
              (minus == 1 ? prod != 0 && n % prod == 0 : prod == n);
    if (minus == 1 && neg == 0 && prod == 0 && n == 0)
      continue; // the missing extent is not determined; either answer is fine
    if (ok)
      continue;
    ++count;
    must_throw(ch, sstr(s) + ".reshape" + sstr(b), [&] { a.t.reshape(gv(b)); });
    must_throw(ch, "reshape(" + sstr(s) + "," + sstr(b) + ")",
               [&] { INNC::reshape(a.t, gv(b)); });
    if (minus + neg == 0) {
      Tensor as = Tensor::zeros(sv(b), INNC::i8);
      must_throw(ch, sstr(s) + ".reshape_as" + sstr(b),
                 [&] { a.t.reshape_as(as); });
    }
  }
  w.unchanged("reshape argument");
  ch.state(hash_u64(h_layout(a.m), count));
}

// the b with a * b = n modulo 2^64, for odd a
static uint64_t wrap_partner(uint64_t a, uint64_t n) {
  uint64_t inv = a;
  for (int i = 0; i < 6; ++i)
    inv *= 2 - a * inv;
  return n * inv;
}
SPACE("wrapping extents", "shapes whose element count or size in bytes is right only modulo 2^64: pairs (a, n/a mod 2^64) for 12 odd a, all "
                          "(2^i, 2^(64-i)), (2^62+1, 4), (2^61+1, 8), one to three extents, in every order, with a further 1 or -1: reshape of n = 0..8 "
                          "elements in 3 layouts; zeros, Tensor(sizes), ones, full, from_blob, eye and randn of every dtype whose byte count wraps") {
  using U = uint64_t;
  int n = ch.pick(9), part = ch.pick(8);
  ch.shard();
  std::vector<std::vector<U>> sh;
  const U T = 1;
  auto add = [&](std::vector<U> v) {
    std::sort(v.begin(), v.end());
    do
      sh.push_back(v);
    while (std::next_permutation(v.begin(), v.end()));
  };
  for (U a : {U(3), U(5), U(7), U(9), U(255), U(257), (T << 32) + 1, (T << 32) - 1, (T << 33) + 3, (T << 62) + 1, (T << 61) + 1, (T << 40) + 15}) {
    U b = wrap_partner(a, n);
    add({a, b});
    add({a, b, 1});
    U c = wrap_partner(3, b);
    add({a, 3, c});
  }
  for (int i = 1; i < 64; ++i) {
    add({T << i, T << (64 - i)});
    if (i < 63)
      add({T << i, T << (63 - i), 2});
  }
  for (int k : {1, 2, 3, 4, 8})
    for (int i : {63, 62, 61, 60})
      add({(T << i) + k, T << (64 - i)});
  for (int i : {63, 62, 61})
    for (int k = 0; k <= 8; ++k)
      add({(T << i) + k});
  using W = unsigned __int128;
  auto exact = [](const std::vector<U> &v) {
    W p = 1;
    for (U x : v) {
      if (x == 0)
        return W(0);
      p = p > (W(1) << 100) / x ? W(1) << 100 : p * x;
    }
    return p;
  };
  auto str = [](const std::vector<U> &v) {
    std::string r = "{";
    for (U x : v)
      r += (r.size() > 1 ? "," : "") + std::to_string(x);
    return r + "}";
  };
  if (part < 3) {
    int lay = part * 2;
    Shape s{n};
    if (!layout_ok(lay, s))
      ch.prune();
    Pair a = make_layout(lay, s, INNC::f32, iota_vals(n, INNC::f32, 1));
    Watch w(a);
    for (auto &v : sh) {
      bool fits = true;
      for (U x : v)
        fits &= x < (T << 63);
      if (!fits || exact(v) == W(n))
        continue;
      INNC::SignedVec g;
      for (U x : v)
        g.push_back(static_cast<long long>(x));
      must_throw(ch, "reshape of " + sstr(s) + " to " + str(v), [&] { a.t.reshape(g); });
      if (n == 0)
        continue;
      g.push_back(-1);
      must_throw(ch, "reshape of " + sstr(s) + " to " + str(v) + " and -1", [&] { a.t.reshape(g); });
    }
    w.unchanged("reshape argument");
  } else {
    // only sizes that cannot be allocated on any machine
    std::vector<num> v8(16, 1);
    Tensor blob = r_new({16}, INNC::f64, v8);
    double buf[16] = {};
    for (types dt : ALL_TYPES)
      for (auto &v : sh) {
        if (exact(v) * INNC::size_of(dt) <= W(~U(0)))
          continue;
        INNC::SizeVec g;
        for (U x : v)
          g.push_back(x);
        std::string nm = str(v) + " " + tname(dt);
        switch (part) {
        case 3: must_throw(ch, "zeros " + nm, [&] { Tensor::zeros(g, dt); }); break;
        case 4: must_throw(ch, "ones " + nm, [&] { Tensor::ones(g, dt); }); break;
        case 5:
          must_throw(ch, "full " + nm, [&] { Tensor::full(g, std::int64_t(3), dt); });
          must_throw(ch, "full " + nm, [&] { Tensor::full(g, 1.5, dt); });
          break;
        case 6:
          must_throw(ch, "Tensor " + nm, [&] { Tensor t(g, dt); });
          must_throw(ch, "from_blob " + nm, [&] { Tensor::from_blob(buf, g, dt); });
          break;
        default:
          must_throw(ch, "randn " + nm, [&] { Tensor::randn(g, dt); });
          if (v.size() == 2)
            must_throw(ch, "eye " + nm, [&] { Tensor::eye(v[0], v[1], dt); });
        }
      }
  }
  ch.state(hash_u64(n, part));
}

SPACE("transpose", "transpose of ranks 0..5 with every pair of dimensions in 0..rank+2 "
                   "(and huge ones) that is out of range or repeated") {
  static const std::vector<Shape> ss = {{},        {3},          {2, 3},
                                        {0, 2},    {2, 3, 2},    {2, 1, 2, 3},
                                        {1, 2, 1, 2, 1}, {1}};
  const Shape &s = ch.of(ss);
  ch.shard();
  Pair a = q_new(s, INNC::i32, iota_vals(numel(s), INNC::i32, 1));
  Watch w(a);
  std::vector<size_t> ds;
  for (size_t i = 0; i <= s.size() + 2; ++i)
    ds.push_back(i);
  ds.push_back(static_cast<size_t>(-1));
  ds.push_back(static_cast<size_t>(1) << 32);
  for (size_t x : ds)
    for (size_t y : ds)
      if (x >= s.size() || y >= s.size() || x == y) {
        must_throw(ch, fmt("%s.transpose(%zu,%zu)", sstr(s).c_str(), x, y),
                   [&] { a.t.transpose(x, y); });
        must_throw(ch, fmt("transpose(%s,%zu,%zu)", sstr(s).c_str(), x, y),
                   [&] { INNC::transpose(a.t, x, y); });
      }
  w.unchanged("transpose argument");
  ch.state(h_layout(a.m));
}

SPACE("slice", "out-of-range indices -n-3..n+2 and huge ones at every dimension of 12 "
               "shapes, alone and behind valid slices; zero steps; too many dimensions; "
               "text that is no number") {
  static const std::vector<Shape> ss = {{},     {1},    {3},       {5},
                                        {0},    {2, 3}, {1, 1},    {3, 0},
                                        {0, 2}, {2, 3, 4}, {1, 2, 1, 2}, {7}};
  const Shape &s = ch.of(ss);
  ch.shard();
  int lay = ch.pick(3) * 2;
  if (!layout_ok(lay, s))
    ch.prune();
  Pair a = make_layout(lay, s, INNC::f64, iota_vals(numel(s), INNC::f64, 1));
  Watch w(a);
  auto bad = [&](const std::string &e) {
    must_throw(ch, sstr(s) + "[\"" + e + "\"]", [&] { a.t[e]; });
  };
  for (size_t d = 0; d < s.size(); ++d) {
    std::string all, rev, idx;
    bool empty_before = false;
    for (size_t i = 0; i < d; ++i) {
      all += ":,";
      rev += "::-1,";
      idx += "0,";
      empty_before |= s[i] == 0;
    }
    std::vector<ll> is;
    for (int i = -s[d] - 3; i <= s[d] + 2; ++i)
      if (i < -s[d] || i >= s[d])
        is.push_back(i);
    for (ll h : {1000LL, -1000LL, 2147483648LL, -4294967297LL, 4294967296LL,
                 1000000000000000000LL, -1000000000000000000LL})
      is.push_back(h);
    for (ll i : is) {
      bad(all + std::to_string(i));
      bad(rev + std::to_string(i));
      if (!empty_before)
        bad(idx + std::to_string(i));
      bad(all + " " + std::to_string(i) + " ");
      if (d + 1 < s.size())
        bad(all + std::to_string(i) + ",:");
    }
    for (const char *z : {"::0", "0:1:0", ":-1:0", "1::0", " : : 0 ", "::-0", "::+0", "::00"})
      bad(all + z);
    for (const char *z : {"a", "x:", ":y", "::z", "abc:2", "-", "--1", "0x", "0x0:", "0 0", ":1 1", ":1.5", "0.5", "::1e0", "+", "+-1:", "0:1:1:1", ":::", "::1:",
                          "0;", ":1]", "0-1", "1-:", "\n", " ", "::-"})
      bad(all + z);
  }
  std::string many = ":";
  for (size_t d = 0; d < s.size(); ++d)
    many += ",:";
  bad(many);
  bad(many + ",:");
  std::string m2 = "0";
  for (size_t d = 0; d < s.size(); ++d)
    m2 += ",0";
  bad(m2);
  w.unchanged("slice argument");
  ch.state(h_layout(a.m));
}

SPACE("cat", "cat of no tensor; every dimension at or beyond the rank; all pairs and "
             "triples of 9 shapes that do not fit, every dimension, bad one at each place") {
  static const std::vector<Shape> ss = {{},     {2},    {3},    {2, 3},   {2, 2},
                                        {3, 3}, {0, 3}, {2, 3, 1}, {2, 3, 2}};
  int n = 1 + ch.pick(3);
  std::vector<Shape> pick;
  for (int i = 0; i < n; ++i)
    pick.push_back(ch.of(ss));
  ch.shard();
  std::vector<Pair> ps;
  std::vector<Tensor> ts;
  for (int i = 0; i < n; ++i) {
    types dt = ALL_TYPES[(i * 4 + 1) % 6];
    ps.push_back(q_new(pick[i], dt, iota_vals(numel(pick[i]), dt, i)));
    ts.emplace_back();
    ts.back() = ps.back().t;
  }
  std::vector<Watch> ws;
  for (auto &p : ps)
    ws.emplace_back(p);
  for (size_t d : {size_t(0), size_t(1), size_t(2), size_t(3), size_t(1) << 32,
                   static_cast<size_t>(-1)}) {
    bool ok = d < pick[0].size();
    for (int i = 1; i < n && ok; ++i) {
      ok &= pick[i].size() == pick[0].size();
      for (size_t k = 0; k < pick[0].size() && ok; ++k)
        ok &= k == d || pick[i][k] == pick[0][k];
    }
    if (ok)
      continue;
    std::string nm = fmt("cat dim %zu of", d);
    for (auto &s : pick)
      nm += " " + sstr(s);
    must_throw(ch, nm, [&] { INNC::cat(ts, d); });
  }
  if (n == 1)
    for (size_t d : {0, 1, 5})
      must_throw(ch, "cat of no tensor", [&] { Tensor::cat({}, d); });
  uint64_t h = 3;
  for (int i = 0; i < n; ++i) {
    ws[i].unchanged("cat argument");
    h = hash_u64(h, h_layout(ps[i].m));
  }
  ch.state(h);
}

SPACE("cat of many", "2..9, 16, 17, 33, 64, 65, 129 and 257 parts of {2,3} or {2,1,2}, every dimension, the part that does not fit (another extent, "
                     "an empty extent, another rank, every dtype by position) at every place") {
  static const std::vector<int> ns = {2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 64, 65, 129, 257};
  int n = ch.of(ns);
  static const std::vector<Shape> ss = {{2, 3}, {2, 1, 2}};
  const Shape &s = ch.of(ss);
  int dim = ch.pick(static_cast<int>(s.size()));
  ch.shard();
  if (is_asan() && n > 33)
    ch.prune();
  std::vector<Pair> ps;
  std::vector<Tensor> ts(n);
  for (int i = 0; i < n; ++i) {
    types dt = ALL_TYPES[(i * 5 + 3) % 6];
    Shape o = s;
    o[dim] = (s[dim] + i) % 3;
    ps.push_back(q_new(o, dt, iota_vals(numel(o), dt, i)));
    ts[i] = ps[i].t;
  }
  for (int i = 0; i < n; ++i)
    for (int bad = 0; bad < 4; ++bad) {
      Shape o = s;
      int d = (dim + 1 + i % (static_cast<int>(s.size()) - 1)) % static_cast<int>(s.size());
      if (bad == 0)
        o[d] += 1;
      else if (bad == 1)
        o[d] = 0;
      else if (bad == 2)
        o.push_back(1);
      else
        o.erase(o.begin() + d);
      ts[i] = Tensor::ones(sv(o), ALL_TYPES[(i + bad) % 6]);
      must_throw(ch, fmt("cat of %d parts along %d, part %d is ", n, dim, i) + sstr(o), [&] { INNC::cat(ts, dim); });
      ts[i] = ps[i].t;
    }
  for (auto &p : ps)
    check(p, "cat argument");
  ch.state(hash_u64(n, hash_u64(dim, s.size())));
}

SPACE("division by zero", "integer division with a zero at each position of the divisor "
                          "(scalar, row, same shape), 16 integer dtype pairs") {
  static const std::vector<types> I = {INNC::i8, INNC::i16, INNC::i32, INNC::i64};
  types ta = ch.of(I), tb = ch.of(I);
  static const std::vector<std::pair<Shape, Shape>> sp = {
      {{}, {}}, {{3}, {}}, {{3}, {3}}, {{2, 3}, {3}}, {{2, 3}, {2, 1}}, {{2, 2, 2}, {2, 2, 2}}};
  auto &s = ch.of(sp);
  ch.shard();
  for (int z = 0; z < numel(s.second); ++z) {
    auto v = iota_vals(numel(s.second), tb, 1);
    v[z] = 0;
    Pair a = q_new(s.first, ta, iota_vals(numel(s.first), ta, 2));
    Pair b = q_new(s.second, tb, v);
    Watch wa(a), wb(b);
    must_throw(ch, "integer division by zero", [&] { a.t / b.t; });
    wa.unchanged("dividend");
    wb.unchanged("divisor");
    ch.state(hash_u64(h_model(a.m), h_model(b.m)));
  }
}

SPACE("autograd", "backward from tensors that do not require grad, are leaves, or have "
                  "more or fewer than one element; requires_grad on integers; integer "
                  "cast and += of tensors that require grad; every small shape x dtype") {
  static const auto ss = shapes(0, 2, {0, 1, 2, 3});
  const Shape &s = ch.of(ss);
  ch.shard();
  types dt = ch.of(ALL_TYPES);
  int n = numel(s);
  tape.reset();
  Pair a = q_new(s, dt, iota_vals(n, dt, 1));
  {
    Watch w(a);
    must_throw(ch, "backward of a tensor that does not require grad",
               [&] { a.t.backward(); });
    Tensor sm = a.t.sum();
    must_throw(ch, "backward of a sum that does not require grad",
               [&] { sm.backward(); });
    if (!isf(dt))
      must_throw(ch, "requires_grad on an integer tensor",
                 [&] { a.t.requires_grad(true); });
    w.unchanged("tensor");
  }
  if (!isf(dt))
    must_throw(ch, "randn of an integer type",
               [&] { Tensor::randn(sv(s), dt); });
  if (!isf(dt))
    must_throw(ch, "randn_like of an integer tensor",
               [&] { Tensor::randn_like(a.t); });
  if (isf(dt)) {
    a.t.requires_grad(true);
    m_require(a.m);
    Pair c = q_new(s, dt, iota_vals(n, dt, 2));
    Watch w(a), wc(c);
    must_throw(ch, "backward of a leaf", [&] { a.t.backward(); });
    for (types t : {INNC::i8, INNC::i16, INNC::i32, INNC::i64})
      must_throw(ch, "integer cast of a tensor that requires grad",
                 [&] { a.t.type(t); });
    must_throw(ch, "+= on a leaf that requires grad", [&] { a.t += c.t; });
    must_throw(ch, "+= on itself", [&] { a.t += a.t; });
    Pair r = q_bin(MUL, a, c);
    Watch wr(r);
    must_throw(ch, "+= on a result that requires grad", [&] { r.t += c.t; });
    must_throw(ch, "integer cast of a result", [&] { r.t.type(INNC::i32); });
    if (n != 1) {
      must_throw(ch, "backward of a tensor with other than one element",
                 [&] { r.t.backward(); });
      must_throw(ch, "backward of it again", [&] { r.t.backward(); });
    }
    wr.unchanged("product");
    Tensor d = r.t.detach();
    must_throw(ch, "backward of a detached tensor", [&] { d.backward(); });
    w.unchanged("leaf");
    wc.unchanged("constant");
    wr.unchanged("product");
    // rejected calls leave no trace: the graph still works
    Pair l = q_sum(r);
    l.t.backward();
    q_check_grad(l, a, "gradient after rejected requests");
    check_grad(c.t, dt, s, {}, "constant");
    still_works(ch);
  }
  ch.state(h_model(a.m));
}

SPACE("rejected then used", "for each kind of rejected request in the middle of a "
                            "computation that requires grad: the result and the "
                            "gradients are as if it had never been made") {
  int k = ch.pick(9), when = ch.pick(3), lay = ch.pick(2);
  ch.shard();
  tape.reset();
  Pair a = q_new({2, 3}, INNC::f64, iota_vals(6, INNC::f64, 1), true);
  Pair b = q_new({3}, INNC::f64, iota_vals(3, INNC::f64, 2), true);
  Pair x = lay ? q_transpose(a, 0, 1) : q_handle(a);
  auto bad = [&](Pair &p) {
    switch (k) {
    case 0: must_throw(ch, "+ of sizes that do not fit", [&] { p.t + Tensor::ones({7}, INNC::f64); }); break;
    case 1: must_throw(ch, "/ of sizes that do not fit", [&] { Tensor::ones({7}, INNC::f64) / p.t; }); break;
    case 2: must_throw(ch, "reshape", [&] { p.t.reshape({5, -1}); }); break;
    case 3: must_throw(ch, "index", [&] { p.t["99"]; }); break;
    case 4: must_throw(ch, "transpose", [&] { p.t.transpose(0, 9); }); break;
    case 5: must_throw(ch, "cast", [&] { p.t.type(INNC::i16); }); break;
    case 6: must_throw(ch, "backward", [&] { p.t.backward(); }); break;
    case 7: must_throw(ch, "+=", [&] { p.t += p.t; }); break;
    case 8: {
      std::vector<Tensor> v(2);
      v[0] = p.t;
      v[1] = Tensor::ones({1, 1, 1, 1}, INNC::f64);
      must_throw(ch, "cat", [&] { Tensor::cat(v, 0); });
      break;
    }
    }
  };
  if (when == 0)
    bad(x);
  Pair xt = lay ? q_transpose(x, 0, 1) : q_handle(x);
  Pair y = q_bin(MUL, xt, b);
  if (when == 1) {
    bad(y);
    bad(x);
  }
  Pair z = q_bin(ADD, y, a);
  if (when == 2) {
    bad(z);
    bad(y);
  }
  Pair l = q_sum(z);
  l.t.backward();
  check(l, "loss");
  q_check_grad(l, a, "a");
  q_check_grad(l, b, "b");
  ch.step(4);
  ch.state(hash_u64(k * 10 + when, lay));
}

template <typename T, typename U> static void init_bad(Chooser &ch) {
  using TI = INNC::TensorInit;
  T t = 1;
  must_throw(ch, "ragged initialiser", [&] { Tensor x(TI{TI{t, t}, TI{t}}); });
  must_throw(ch, "ragged initialiser", [&] { Tensor x(TI{TI{t}, TI{t, t}, TI{t}}); });
  must_throw(ch, "ragged initialiser, last", [&] { Tensor x(TI{TI{t}, TI{t}, TI{t, t}}); });
  must_throw(ch, "ragged initialiser, nested",
             [&] { Tensor x(TI{TI{TI{t, t}, TI{t, t}}, TI{TI{t, t}}}); });
  must_throw(ch, "mixed ranks", [&] { Tensor x(TI{TI{TI{t}}, TI{t}}); });
  if constexpr (!std::is_same_v<T, U>) {
    U u = 1;
    must_throw(ch, "mixed element types", [&] { Tensor x(TI{TI{t, t}, TI{u, u}}); });
    must_throw(ch, "mixed element types",
               [&] { Tensor x(TI{TI{t}, TI{t}, TI{u}}); });
    Tensor y = Tensor::ones({2}, INNC::i8);
    must_throw(ch, "mixed element types, assigned",
               [&] { y = TI{TI{t, t}, TI{u, u}}; });
    check(y, m_new({2}, INNC::i8, {1, 1}), "target of a rejected assignment");
  }
  // a subset of the innermost rows is too long or of the other type
  U v = 1;
  auto row = [&](int bad, int mask, int i) {
    if (!(mask >> i & 1))
      return TI{t, t};
    return bad == 0 ? TI{t, t, t} : bad == 1 ? TI{t} : TI{v, v};
  };
  for (int bad = 0; bad < (std::is_same_v<T, U> ? 2 : 3); ++bad) {
    for (int m = 1; m < 15; ++m) {
      auto r = [&](int i) { return row(bad, m, i); };
      LOG("rows %d are %s", m, bad == 0 ? "longer" : bad == 1 ? "shorter" : "of another type");
      must_throw(ch, "rank 3 initialiser", [&] { Tensor x(TI{TI{r(0), r(1)}, TI{r(2), r(3)}}); });
      must_throw(ch, "rank 4 initialiser", [&] { Tensor x(TI{TI{TI{r(0)}, TI{r(1)}}, TI{TI{r(2)}, TI{r(3)}}}); });
      must_throw(ch, "rank 3 initialiser", [&] { Tensor x(TI{TI{r(0)}, TI{r(1)}, TI{r(2)}, TI{r(3)}}); });
      must_throw(ch, "rank 2 initialiser", [&] { Tensor x(TI{r(0), r(1), r(2), r(3)}); });
    }
  }
}
template <typename T> static void init_bad1(Chooser &ch, int k) {
  switch (k) {
  case 0: init_bad<T, std::int8_t>(ch); break;
  case 1: init_bad<T, std::int16_t>(ch); break;
  case 2: init_bad<T, std::int32_t>(ch); break;
  case 3: init_bad<T, std::int64_t>(ch); break;
  case 4: init_bad<T, float>(ch); break;
  case 5: init_bad<T, double>(ch); break;
  }
}
SPACE("initialisers", "ragged, mixed-rank and mixed-type nested initialisers (every subset of four rows odd, ranks 2..4), all 36 "
                      "pairs of element types") {
  int k = ch.pick(6);
  ch.shard();
  int j = ch.pick(6);
  switch (k) {
  case 0: init_bad1<std::int8_t>(ch, j); break;
  case 1: init_bad1<std::int16_t>(ch, j); break;
  case 2: init_bad1<std::int32_t>(ch, j); break;
  case 3: init_bad1<std::int64_t>(ch, j); break;
  case 4: init_bad1<float>(ch, j); break;
  case 5: init_bad1<double>(ch, j); break;
  }
  ch.state(k * 6 + j);
}

SUCCESSIONS(4)

HIGH_RANKS(4)
