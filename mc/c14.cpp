// C14: gradients accumulate over backward passes until zero_grad.
#include "ranks.hpp"
#include "grads.hpp"
#include <deque>
using namespace mc;

// Running totals: the model's gradient of every pass, added up.
struct Acc {
  Pair p;
  std::vector<num> g;
  bool any = false;
  void add(const Pair &root) {
    auto d = m_grad(root.m, p.m);
    for (size_t i = 0; i < g.size(); ++i)
      g[i] += d[i];
  }
};
static Acc acc(Pair &&p) {
  Acc a;
  a.g.assign(p.m.n(), 0);
  a.p = std::move(p);
  return a;
}
static void verify(const std::deque<Acc> &ls, const char *what) {
  Tol tol(1e-6L, 1e-11L);
  for (auto &l : ls) {
    check_grad(l.p.t, l.p.m.dt, l.p.m.shape, l.g, what);
    check(l.p, "leaf value");
  }
}
constexpr int N_GRAPHS = 9;
static Pair graph(int g, std::deque<Acc> &ls) {
  Pair &a = ls[0].p, &b = ls[1].p;
  switch (g) {
  case 0: return q_sum(q_bin(MUL, a, b));
  case 1: {
    Pair v = q_slice(a, {sl_i(1)});
    return q_sum(q_bin(MUL, v, q_new({2}, INNC::f64, {4, -0.5L})));
  }
  case 2: return q_mean(b);
  case 3: {
    Pair t = q_transpose(a, 0, 1);
    return q_sum(q_bin(MUL, t, a));
  }
  case 4: return q_sum(a);
  case 5: {
    Pair v = q_reshape(a, {4});
    Pair c = q_clone(v);
    return q_max(c);
  }
  case 6: return q_sum(q_bin(DIV, a, q_new({2}, INNC::f32, {2, -4})));
  case 7: {
    std::vector<Pair *> v{&b, &b};
    Pair c = q_cat(v, 0);
    return q_sum(q_bin(MUL, c, q_new({4}, INNC::f32, {1, 2, 4, 8})));
  }
  default: return q_sum(q_bin(SUB, b, a));
  }
}
static std::deque<Acc> two_leaves(int kind) {
  tape.reset();
  std::deque<Acc> ls;
  if (kind == 0) {
    ls.push_back(acc(q_new({2, 2}, INNC::f64, {1.5L, -2, 3, 0.25L}, true)));
    ls.push_back(acc(q_new({2}, INNC::f32, {-0.75L, 2.5L}, true)));
  } else {
    Pair v = make_layout(6, {2, 2}, INNC::f32, {2, -1, 0.5L, 4});
    q_require(v);
    ls.push_back(acc(std::move(v)));
    Pair w = make_layout(3, {2}, INNC::f64, {-3, 0.25L});
    q_require(w);
    ls.push_back(acc(std::move(w)));
  }
  return ls;
}
SPACE("histories", "all histories up to length 4 (thorough 5) of {build one of 9 graphs over two leaves and run it "
                   "backward, zero_grad of either leaf} x 2 leaf layouts; gradients compared after every step") {
  int kind = ch.pick(2);
  int depth = is_thorough() ? 5 : 4;
  auto ls = two_leaves(kind);
  uint64_t h = kind;
  for (int k = 0; k < depth; ++k) {
    int c = ch.pick(N_GRAPHS + 2);
    if (k == 2)
      ch.shard();
    if (c < N_GRAPHS) {
      Pair L = graph(c, ls);
      q_backward(L);
      for (auto &l : ls)
        l.add(L);
    } else {
      LOG("zero_grad of leaf %d", c - N_GRAPHS);
      auto &l = ls[c - N_GRAPHS];
      bool had = has_grad(l.p.t);
      l.p.t.zero_grad();
      std::fill(l.g.begin(), l.g.end(), 0);
      if (had && !has_grad(l.p.t))
        fail("zero_grad dropped the gradient instead of resetting it");
    }
    verify(ls, "accumulated gradient");
    h = hash_u64(h, c + 1);
    ch.state(h);
    ch.step();
  }
  for (auto &l : ls)
    for (num g : l.g)
      h = hash_u64(h, static_cast<uint64_t>(static_cast<ll>(g * 64)));
  ch.outcome(h);
}
SPACE("pending graphs", "graphs built early and run later, in every order: all histories up to length 6 of {build one of 4 "
                        "graphs, run the oldest / newest pending one, zero_grad}; several graphs over the same "
                        "leaves are alive at once") {
  static const int kinds[4] = {0, 1, 3, 5};
  auto ls = two_leaves(0);
  std::deque<Pair> pend;
  uint64_t h = 3;
  int depth = is_thorough() ? 7 : 6;
  for (int k = 0; k < depth; ++k) {
    int c = ch.pick(7);
    if (k == 3)
      ch.shard();
    if (c < 4) {
      pend.push_back(graph(kinds[c], ls));
    } else if (c < 6) {
      if (pend.empty() || (c == 5 && pend.size() == 1))
        ch.prune();
      Pair L = c == 4 ? std::move(pend.front()) : std::move(pend.back());
      if (c == 4)
        pend.pop_front();
      else
        pend.pop_back();
      q_backward(L);
      for (auto &l : ls)
        l.add(L);
      verify(ls, "accumulated gradient");
    } else {
      LOG("zero_grad of both");
      for (auto &l : ls) {
        l.p.t.zero_grad();
        std::fill(l.g.begin(), l.g.end(), 0);
      }
    }
    h = hash_u64(h, c + 1);
    ch.state(h);
    ch.step();
  }
  verify(ls, "accumulated gradient");
  ch.outcome(h);
}
SPACE("many passes", "n fresh graphs run backward for every n in 1..64 and around powers of two up to 512, zero_grad after "
                     "every k-th for k in {none,1,2,5}") {
  int n = ch.pick(64) + 1;
  static const int more[] = {127, 128, 129, 255, 256, 257, 511, 512, 513};
  if (ch.flip()) {
    if (n > 9)
      ch.prune();
    n = more[n - 1];
  }
  static const std::vector<int> ks = {0, 1, 2, 5};
  int k = ch.of(ks);
  ch.shard();
  for (int g : {0, 1, 5}) {
    auto ls = two_leaves(0);
    for (int i = 1; i <= n; ++i) {
      tape.nseeds = 6; // the seeds of the two leaves; earlier graphs are gone
      Pair L = graph(g, ls);
      q_backward(L);
      for (auto &l : ls)
        l.add(L);
      if (k && i % k == 0)
        for (auto &l : ls) {
          l.p.t.zero_grad();
          std::fill(l.g.begin(), l.g.end(), 0);
        }
    }
    verify(ls, "accumulated gradient");
    ch.step(n);
  }
  ch.outcome(hash_u64(n, k));
}
SPACE("same root", "a root computed directly from leaves, run backward 1..4 times with zero_grad in between or not: sum, mean, "
                   "max, min, and products/quotients of one-element leaves") {
  int op = ch.pick(8), n = 1 + ch.pick(4);
  int zero_after = ch.pick(n + 1); // 0: never
  ch.shard();
  auto ls = two_leaves(0);
  if (op >= 4) {
    ls.clear();
    tape.reset();
    ls.push_back(acc(q_new({}, INNC::f64, {3}, true)));
    ls.push_back(acc(q_new({}, INNC::f64, {-2}, true)));
  }
  Pair &a = ls[0].p, &b = ls[1].p;
  Pair L = op == 0 ? q_sum(a) : op == 1 ? q_mean(a) : op == 2 ? q_max(a) : op == 3 ? q_min(a)
                                                                     : q_bin(static_cast<Op>(op - 4), a, b);
  for (int i = 1; i <= n; ++i) {
    q_backward(L);
    for (auto &l : ls)
      l.add(L);
    if (i == zero_after)
      for (auto &l : ls) {
        l.p.t.zero_grad();
        std::fill(l.g.begin(), l.g.end(), 0);
      }
    verify(ls, "accumulated gradient");
    ch.step();
  }
  ch.outcome(hash_u64(op, n * 8 + zero_after));
}
SPACE("grad handles", "grad() read before, between and after passes: a handle obtained earlier never disturbs later accumulation, "
                      "and using a gradient in arithmetic does not change it") {
  int g1 = ch.pick(N_GRAPHS), g2 = ch.pick(N_GRAPHS), act = ch.pick(5);
  ch.shard();
  auto ls = two_leaves(0);
  Pair L1 = graph(g1, ls);
  q_backward(L1);
  for (auto &l : ls)
    l.add(L1);
  std::vector<Tensor> keep;
  for (auto &l : ls) {
    if (!has_grad(l.p.t))
      continue;
    Tensor g = l.p.t.grad();
    if (g.requires_grad())
      fail("a gradient requires grad");
    switch (act) {
    case 0: keep.push_back(std::move(g)); break;
    case 1: keep.push_back(g + g); break;
    case 2: keep.push_back(g["0"]); break;
    case 3: keep.push_back(g * l.p.t); break;
    default: keep.push_back(g.clone()); break;
    }
  }
  verify(ls, "gradient after using it");
  Pair L2 = graph(g2, ls);
  q_backward(L2);
  for (auto &l : ls)
    l.add(L2);
  keep.clear();
  verify(ls, "accumulated gradient");
  ch.step(3);
  ch.outcome(hash_u64(g1, g2 * 8 + act));
}

SPACE("held gradients", "leaf in 14 layouts x 6 shapes x {f32,f64} x what is held of its gradient meanwhile (nothing, a handle, two, a detached handle, a "
                        "reversed view, a handle from before the first pass) x all histories of length 4 over {pass, pass over a row, zero_grad, take a "
                        "fresh handle}: the gradient is exact after every step, and the held handle shows the same") {
  int k = ch.pick(N_LAYOUTS);
  static const std::vector<Shape> ss = {{}, {1}, {4}, {2, 3}, {3, 1}, {2, 2, 2}};
  const Shape &s = ch.of(ss);
  if (!layout_ok(k, s))
    ch.prune();
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  int held = ch.pick(6);
  ch.shard();
  int len = is_thorough() ? 5 : 4, total = 1;
  for (int i = 0; i < len; ++i)
    total *= 4;
  int n = numel(s);
  for (int h = 0; h < total; ++h) {
    tape.reset();
    Pair a = make_layout(k, s, dt, iota_vals(n, dt, 1));
    q_require(a);
    std::vector<Tensor> hs(4);
    std::vector<num> g;
    auto take = [&](int at) {
      hs[at] = a.t.grad();
      if (held == 2)
        hs[at + 1] = hs[at];
      if (held == 3 && !g.empty())
        hs[at] = hs[at].detach();
      if (held == 4 && !g.empty() && !s.empty())
        hs[at] = hs[at]["::-1"];
    };
    if (held == 5)
      take(0);
    int x = h;
    for (int i = 0; i < len; ++i, x /= 4) {
      switch (x % 4) {
      case 0:
        LOG("pass");
        (a.t * Tensor::full({}, std::int64_t(i + 2), dt)).sum().backward();
        g.resize(n, 0);
        for (auto &e : g)
          e += i + 2;
        break;
      case 1: {
        if (s.empty())
          continue;
        LOG("pass over the first row");
        Tensor r = a.t["0"];
        r.sum().backward();
        g.resize(n, 0);
        for (int e = 0; e < n / s[0]; ++e)
          g[e] += 1;
        break;
      }
      case 2:
        LOG("zero_grad");
        a.t.zero_grad();
        for (auto &e : g)
          e = 0;
        break;
      default:
        LOG("take a handle of the gradient");
        if (held)
          take(2);
      }
      if (g.empty()) {
        if (has_grad(a.t))
          fail("a gradient before any pass");
      } else
        check_grad(a.t, dt, s, g, "gradient");
      ch.step();
    }
    check(a, "leaf");
    if (!g.empty() && held) {
      // all handles of a gradient show the same elements
      take(0);
      Tensor again = a.t.grad();
      if (again.requires_grad() || again.to_string() != a.t.grad().to_string())
        fail("two handles of one gradient differ");
    }
    ch.outcome(hash_bytes(h, s.data(), s.size() * sizeof(int)));
  }
  ch.state(hash_u64(k, hash_u64(dt, held)) + s.size());
}

SPACE("sizes", "accumulate, zero_grad, accumulate again for a leaf of every line size and wide shape x 5 layouts x {f32,f64} x zeroing "
               "through the leaf or a second handle: every element is reset, every element accumulates; a bystander is untouched") {
  static const auto ss = [] {
    std::vector<Shape> r;
    for (int n : line_sizes())
      if (n <= (is_thorough() ? 70000 : 1100) || (n >= 4095 && n <= 5000) || n == 65537)
        r.push_back({n});
    for (auto &s : wide_shapes())
      r.push_back(s);
    r.push_back({});
    return r;
  }();
  static const std::vector<int> ks = {0, 4, 5, 6, 9};
  const Shape &s = ch.of(ss);
  int k = ch.of(ks);
  if (!layout_ok(k, s) || (k > 4 && numel(s) > 2000 && !is_thorough()))
    ch.prune();
  ch.shard();
  for (types dt : {INNC::f32, INNC::f64})
    for (int form = 0; form < 2; ++form) {
      int n = numel(s);
      tape.reset();
      Pair a = make_layout(k, s, dt, iota_vals(n, dt, 1));
      Tensor other = r_new(s, dt, iota_vals(n, dt, 2));
      a.t.requires_grad(true);
      other.requires_grad(true);
      auto w = weights(n);
      Tensor W = r_new(s, INNC::f64, w);
      LOG("leaf %s %s, layout %s", sstr(s).c_str(), tname(dt), layout_name(k));
      auto times = [&](num f) {
        auto g = w;
        for (auto &x : g)
          x *= f;
        return g;
      };
      auto pass = [&](bool with_other) {
        Tensor L;
        L = with_other ? (a.t * W).sum() + (other * W).sum() : (a.t * W).sum();
        LOG("backward()");
        L.backward();
      };
      pass(true);
      pass(false);
      check_grad(a.t, dt, s, times(2), "gradient after two passes");
      LOG("zero_grad()");
      if (form) {
        Tensor h2;
        h2 = a.t;
        h2.zero_grad();
      } else
        a.t.zero_grad();
      check_grad(a.t, dt, s, times(0), "gradient after zero_grad");
      if (n && !has_grad(a.t))
        fail("zero_grad dropped the gradient instead of resetting it");
      check_grad(other, dt, s, times(1), "gradient of a tensor that was not zeroed");
      pass(true);
      check_grad(a.t, dt, s, times(1), "gradient of the pass after zero_grad");
      check_grad(other, dt, s, times(2), "gradient of a tensor that was not zeroed");
      ch.step(4);
    }
  ch.outcome(hash_u64(numel(s), k));
}

SPACE("released gradients", "all histories up to length 5 of {one of 4 passes, zero_grad, release of the gradient's memory} over a leaf "
                            "in 5 layouts: after a release the next pass starts from zero; releasing and zeroing twice is harmless") {
  static const std::vector<int> ks = {0, 3, 4, 5, 6};
  int k = ch.of(ks);
  tape.reset();
  Pair a = make_layout(k, {2, 3}, INNC::f64, iota_vals(6, INNC::f64, 1));
  q_require(a);
  std::vector<num> g(6, 0);
  bool any = false, released = false;
  uint64_t h = k;
  for (int step = 0; step < 5; ++step) {
    int c = ch.pick(6);
    if (step == 1)
      ch.shard();
    if (c < 4) {
      Pair L;
      if (c == 0)
        L = q_sum(a);
      else if (c == 1)
        L = weighted(a, INNC::f64, 0);
      else if (c == 2) {
        Pair v = q_slice(a, {sl_i(1), sl({}, {}, -2)});
        L = weighted(v, INNC::f64, 0);
      } else {
        Pair v = q_clone(a);
        L = weighted(v, INNC::f32, 1);
      }
      q_backward(L);
      auto d = m_grad(L.m, a.m);
      for (int i = 0; i < 6; ++i)
        g[i] += d[i];
      any = true;
      released = false;
    } else if (c == 4) {
      LOG("zero_grad()");
      a.t.zero_grad();
      std::fill(g.begin(), g.end(), 0);
    } else {
      if (!any)
        ch.prune();
      LOG("grad().release()");
      a.t.grad().release();
      std::fill(g.begin(), g.end(), 0);
      released = true;
    }
    Tol tol(1e-6L, 1e-11L);
    if (!released)
      check_grad(a.t, INNC::f64, {2, 3}, g, "accumulated gradient");
    check(a, "leaf value");
    h = hash_u64(h, c + 1);
    ch.state(h);
    ch.step();
  }
  for (num x : g)
    h = hash_u64(h, static_cast<uint64_t>(static_cast<ll>(x * 64)));
  ch.outcome(h);
}

SPACE("shapes", "leaves of every shape of rank 0..3 over {1,2,3}, the wide shapes and line extents x {f32,f64} x all histories up to length 4 of {pass over "
                "the whole leaf, pass over its first row, zero_grad}") {
  static const auto ss = [] {
    auto v = shapes(0, 3, {1, 2, 3});
    for (auto &s : wide_shapes())
      v.push_back(s);
    for (int n : line_sizes())
      if (n > 3 && n <= 1100)
        v.push_back({n});
    return v;
  }();
  const Shape &s = ch.of(ss);
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  ch.shard();
  if (numel(s) == 0)
    ch.prune();
  int n = numel(s), row = s.empty() ? 1 : n / s[0];
  auto w = weights(n, 1), w2 = weights(row, 2);
  Tensor wt = r_new(s, INNC::f64, w);
  Tensor wr = r_new(s.empty() ? s : Shape(s.begin() + 1, s.end()), INNC::f32, w2);
  int depth = n > 300 ? 3 : 4, total = 1;
  for (int i = 0; i < depth; ++i)
    total *= 3;
  for (int code = 0; code < total; ++code) {
    Tensor a = r_new(s, dt, iota_vals(n, dt, 1));
    a.requires_grad(true);
    std::vector<num> g(n, 0);
    bool any = false;
    for (int k = 0, c = code; k < depth; ++k, c /= 3) {
      if (c % 3 == 0) {
        Tensor L = (a * wt).sum();
        L.backward();
        for (int i = 0; i < n; ++i)
          g[i] += w[i];
        any = true;
      } else if (c % 3 == 1) {
        Tensor L = s.empty() ? (a * wr).sum() : (a["0"] * wr).sum();
        L.backward();
        for (int i = 0; i < row; ++i)
          g[i] += w2[i];
        any = true;
      } else {
        a.zero_grad();
        std::fill(g.begin(), g.end(), 0);
      }
      LOG("%s", c % 3 == 0 ? "pass over the leaf" : c % 3 == 1 ? "pass over a[\"0\"]" : "zero_grad()");
      ch.step();
    }
    if (any)
      check_grad(a, dt, s, g, fmt("history %d of shape %s", code, sstr(s).c_str()).c_str());
  }
  ch.state(hash_bytes(dt, s.data(), s.size() * sizeof(int)));
  ch.outcome(hash_bytes(dt, s.data(), s.size() * sizeof(int)));
}

HIGH_RANKS(14)
