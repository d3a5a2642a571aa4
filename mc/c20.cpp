// C20: computations that share nothing but constants do not influence each
// other, however their steps interleave.
#include "succ.hpp"
#include <deque>
#include <functional>
using namespace mc;

// A program is a list of steps over its own state.
struct Prog {
  std::deque<Pair> v; // own values; v[0] is the leaf
  std::vector<num> g; // accumulated gradient of the leaf
  Pair root;
};
using Steps = std::vector<std::function<void(Prog &, Pair &)>>;
static void run_back(Prog &p) {
  q_backward(p.root);
  auto d = m_grad(p.root.m, p.v[0].m);
  for (size_t i = 0; i < p.g.size(); ++i)
    p.g[i] += d[i];
}
static void verify(Prog &p, const char *what) {
  Tol tol(1e-6L, 1e-11L);
  check_grad(p.v[0].t, p.v[0].m.dt, p.v[0].m.shape, p.g, what);
  for (size_t i = 0; i < p.v.size(); ++i) {
    check(p.v[i], what);
    check_flag(p.v[i].t, p.v[i].m, what);
    if (i && has_grad(p.v[i].t))
      fail("an intermediate value holds a gradient");
  }
}
static void leaf(Prog &p, const Shape &s, types dt, const std::vector<num> &v) {
  p.v.push_back(q_new(s, dt, v, true));
  p.g.assign(v.size(), 0);
}
constexpr int N_PROG = 7;
static Steps steps(int k) {
  switch (k) {
  case 0: // diamond
    return {[](Prog &p, Pair &) { leaf(p, {2}, INNC::f64, {1.5L, -2}); },
            [](Prog &p, Pair &c) { p.v.push_back(q_bin(MUL, p.v[0], c)); },
            [](Prog &p, Pair &) { p.v.push_back(q_bin(MUL, p.v[1], p.v[1])); },
            [](Prog &p, Pair &) { p.v.push_back(q_bin(ADD, p.v[2], p.v[1])); p.root = q_sum(p.v[3]); },
            [](Prog &p, Pair &) { run_back(p); }};
  case 1: // views
    return {[](Prog &p, Pair &) { leaf(p, {2, 2}, INNC::f32, {1, -2, 3, -4}); },
            [](Prog &p, Pair &) { p.v.push_back(q_transpose(p.v[0], 0, 1)); },
            [](Prog &p, Pair &) { p.v.push_back(q_slice(p.v[1], {sl_i(1)})); },
            [](Prog &p, Pair &c) { p.v.push_back(q_bin(MUL, p.v[2], c)); p.root = q_sum(p.v[3]); },
            [](Prog &p, Pair &) { run_back(p); }};
  case 2: // two passes with zero_grad
    return {[](Prog &p, Pair &c) { leaf(p, {2}, INNC::f64, {4, -0.5L}); p.v.push_back(q_bin(DIV, p.v[0], c)); p.root = q_sum(p.v[1]); },
            [](Prog &p, Pair &) { run_back(p); },
            [](Prog &p, Pair &) { LOG("zero_grad"); p.v[0].t.zero_grad(); p.g.assign(p.g.size(), 0); },
            [](Prog &p, Pair &) { p.v.push_back(q_clone(p.v[0])); p.root = q_max(p.v[2]); },
            [](Prog &p, Pair &) { run_back(p); }};
  case 3: // a failing step in the middle
    return {[](Prog &p, Pair &) { leaf(p, {3}, INNC::f32, {1, 2, -3}); },
            [](Prog &p, Pair &c) { LOG("incompatible addition"); if (!throws([&] { p.v[0].t + c.t; })) fail("{3} + {2} did not throw"); },
            [](Prog &p, Pair &) { LOG("backward of a non-scalar"); p.v.push_back(q_neg(p.v[0])); if (!throws([&] { p.v[1].t.backward(); })) fail("backward of a non-scalar did not throw"); },
            [](Prog &p, Pair &) { p.root = q_mean(p.v[1]); },
            [](Prog &p, Pair &) { run_back(p); }};
  case 4: // cat and reshape
    return {[](Prog &p, Pair &) { leaf(p, {2}, INNC::f64, {0.5L, 8}); },
            [](Prog &p, Pair &c) { std::vector<Pair *> l{&p.v[0], &c, &p.v[0]}; p.v.push_back(q_cat(l, 0)); },
            [](Prog &p, Pair &) { p.v.push_back(q_reshape(p.v[1], {2, 3})); },
            [](Prog &p, Pair &) { p.root = weighted(p.v[2], INNC::f64, 0); },
            [](Prog &p, Pair &) { run_back(p); }};
  case 5: // no gradients at all
    return {[](Prog &p, Pair &) { p.v.push_back(q_new({2, 2}, INNC::i32, {1, 2, 3, 4})); p.g.clear(); },
            [](Prog &p, Pair &c) { p.v.push_back(q_bin(ADD, p.v[0], c)); },
            [](Prog &p, Pair &) { p.v.push_back(q_slice(p.v[0], {sl({}, {}, -1)})); },
            [](Prog &p, Pair &) { p.v.push_back(q_cast(p.v[2], INNC::f32)); },
            [](Prog &p, Pair &) { p.v.push_back(q_sum(p.v[3])); }};
  default: // handle rebinding: x = x * c, twice
    return {[](Prog &p, Pair &) { leaf(p, {2}, INNC::f64, {3, -1}); p.v.push_back(q_neg(p.v[0])); },
            [](Prog &p, Pair &c) { p.v[1] = q_bin(MUL, p.v[1], c); },
            [](Prog &p, Pair &c) { p.v[1] = q_bin(SUB, p.v[1], c); },
            [](Prog &p, Pair &) { p.v[1] = q_abs(p.v[1]); p.root = q_sum(p.v[1]); },
            [](Prog &p, Pair &) { run_back(p); }};
  }
}
static void interleave(Chooser &ch, std::vector<Steps> &S, bool sharing) {
  size_t n = S.size();
  std::vector<Prog> P(n);
  std::vector<size_t> pc(n, 0);
  std::vector<Pair> C;
  tape.reset();
  for (size_t i = 0; i < n; ++i)
    C.push_back(i && sharing ? q_handle(C[0]) : q_new({2}, INNC::f64, {2, -4}));
  size_t left = 0;
  for (auto &s : S)
    left += s.size();
  std::vector<int> order;
  while (left) {
    std::vector<int> en;
    for (size_t i = 0; i < n; ++i)
      if (pc[i] < S[i].size())
        en.push_back(static_cast<int>(i));
    int i = en.size() == 1 ? en[0] : ch.of(en);
    order.push_back(i);
    if (order.size() == 3)
      ch.shard();
    LOG("program %d, step %zu", i, pc[i]);
    S[i][pc[i]++](P[i], C[i]);
    --left;
    ch.step();
  }
  for (size_t i = 0; i < n; ++i) {
    LOG("program %zu:", i);
    verify(P[i], "a program run next to others");
    check(C[i], "shared constant");
    if (has_grad(C[i].t) || C[i].t.requires_grad())
      fail("a shared constant tracks gradients");
  }
  uint64_t h = sharing;
  for (int o : order)
    h = hash_u64(h, o + 1);
  ch.state(h);
  ch.outcome(h);
}
SPACE("two programs", "every interleaving of the 5 steps of two programs, all pairs of 7 programs (diamond, views, repeated passes, "
                      "failing steps, cat, integers, rebinding), constants shared or separate") {
  int a = ch.pick(N_PROG), b = ch.pick(N_PROG);
  bool sh = ch.flip();
  std::vector<Steps> S{steps(a), steps(b)};
  interleave(ch, S, sh);
}
SPACE("three programs", "every interleaving of three programs: all triples of 7 programs with the middle steps merged (3 blocks each: "
                        "1680 interleavings)") {
  std::vector<Steps> S;
  for (int i = 0; i < 3; ++i) {
    int k = ch.pick(N_PROG);
    if (!is_thorough() && i == 2 && k != 0 && k != 3)
      ch.prune();
    Steps s = steps(k);
    S.push_back({s[0], [s](Prog &p, Pair &c) { s[1](p, c); s[2](p, c); s[3](p, c); }, s[4]});
  }
  interleave(ch, S, true);
}
SPACE("history", "program P after n other complete computations (n in 0..40 and up to 1000) gives what it gives alone") {
  int k = ch.pick(N_PROG), noise = ch.pick(N_PROG), n = ch.pick(45);
  static const int more[] = {100, 128, 255, 256, 1000};
  if (n >= 40)
    n = more[n - 40];
  ch.shard();
  Pair c = q_new({2}, INNC::f64, {2, -4});
  for (int i = 0; i < n; ++i) {
    tape.reset();
    Prog q;
    for (auto &s : steps(noise))
      s(q, c);
  }
  tape.reset();
  Prog p;
  for (auto &s : steps(k)) {
    s(p, c);
    ch.step();
  }
  verify(p, "a program run after others");
  ch.outcome(hash_u64(k, noise * 1000 + n));
}

SPACE("many passes", "each of the 6 differentiable programs run 70 000 times in one process (beyond every 16-bit counter): gradients and values of each "
                     "run are checked, and those of a program started before and finished after") {
  int k = ch.pick(N_PROG), early = ch.pick(is_thorough() ? N_PROG : 2);
  if (k == 5)
    ch.prune();
  ch.shard();
  Pair c = q_new({2}, INNC::f64, {2, -4});
  tape.reset();
  Prog p;
  auto se = steps(early);
  for (size_t i = 0; i + 1 < se.size(); ++i)
    se[i](p, c);
  int n0 = tape.nseeds;
  auto sk = steps(k);
  int runs = is_asan() ? 300 : 70000;
  for (int i = 0; i < runs; ++i) {
    tape.nseeds = n0;
    Prog q;
    for (auto &s : sk)
      s(q, c);
    if (i < 300 || i % 256 < 2 || i % 256 > 253 || i + 3 > runs)
      verify(q, "a program run after others");
    ch.step(1);
  }
  se.back()(p, c);
  verify(p, "a program run around others");
  ch.outcome(hash_u64(k, early));
}

// One small computation per (operation, shape, type); pairs of them run one
// after the other, or with their backward passes exchanged.
static const std::vector<Shape> &tiny_shapes() {
  static const std::vector<Shape> v = {{}, {1}, {4}, {1, 4}, {4, 1}, {2, 2}, {2, 3}, {3, 2}, {6}, {1, 2, 2}, {2, 2, 1}, {2, 1, 3}};
  return v;
}
struct Tiny {
  Pair a, b, L;
};
constexpr int N_TINY = 12;
static void tiny_root(Tiny &t, int o) {
  Pair &a = t.a, &b = t.b;
  int n = a.m.n();
  switch (o) {
  case 0: t.L = q_sum(a); break;
  case 1: t.L = q_mean(a); break;
  case 2: t.L = q_sum(q_bin(SUB, a, b)); break;
  case 3: t.L = q_sum(q_bin(MUL, a, b)); break;
  case 4: t.L = q_mean(q_bin(DIV, a, b)); break;
  case 5: t.L = q_sum(q_abs(a)); break;
  case 6: t.L = q_sum(q_neg(a)); break;
  case 7: t.L = q_sum(q_bin(MUL, q_reshape(a, {n}), q_reshape(b, {n}))); break;
  case 8: {
    Pair f = q_reshape(a, {n}), g = q_reshape(b, {n});
    Pair c = q_cat({&f, &g}, 0);
    t.L = weighted(c, INNC::f64, 0);
    break;
  }
  case 9: t.L = q_sum(q_bin(MUL, q_clone(a), q_new({}, INNC::f64, {3}))); break;
  case 10: t.L = q_sum(q_cast(a, a.m.dt == INNC::f32 ? INNC::f64 : INNC::f32)); break;
  default: t.L = q_sum(q_bin(ADD, q_new({}, INNC::i8, {2}), b)); break;
  }
}
SPACE("unrelated pairs", "every ordered pair of 12 computations x 12 shapes x {f32,f64} each, unrelated to each other: built and run one after the "
                         "other, and built first and run in the other order; values and gradients of both are exact, also a third time around") {
  int o1 = ch.pick(N_TINY), o2 = ch.pick(N_TINY);
  const Shape &s1 = ch.of(tiny_shapes());
  const Shape &s2 = ch.of(tiny_shapes());
  ch.shard();
  types t1 = ch.flip() ? INNC::f64 : INNC::f32, t2 = ch.flip() ? INNC::f64 : INNC::f32;
  for (int order = 0; order < 2; ++order) {
    tape.reset();
    Tiny x, y, z;
    auto mk = [&](Tiny &t, int o, const Shape &s, types dt) {
      int n = numel(s);
      t.a = q_new(s, dt, pow2_vals(n, dt, 1), true);
      t.b = q_new(s, dt, pow2_vals(n, dt, 2), true);
      tiny_root(t, o);
    };
    auto ver = [&](Tiny &t) {
      Tol tol(1e-6L, 1e-12L);
      auto one = [&](Pair &p) {
        auto g = m_grad(t.L.m, p.m);
        bool any = false;
        for (num q : g)
          any |= q != 0;
        check_grad(p.t, p.m.dt, p.m.shape, any ? g : std::vector<num>{}, "gradient of an unrelated computation");
        check(p, "leaf");
      };
      one(t.a);
      one(t.b);
      check(t.L, "loss");
    };
    mk(x, o1, s1, t1);
    if (order == 0)
      q_backward(x.L);
    mk(y, o2, s2, t2);
    q_backward(y.L);
    if (order == 1)
      q_backward(x.L);
    ver(x);
    ver(y);
    mk(z, o1, s1, t1);
    q_backward(z.L);
    ver(z);
    ver(x);
    ver(y);
    ch.step(6);
  }
  ch.outcome(hash_u64(o1 * 16 + o2, hash_u64(numel(s1), numel(s2))));
}

SUCCESSIONS(0)
