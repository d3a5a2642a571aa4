// C16: memory safety, lifetimes and leaks.  Built with AddressSanitizer: an
// access outside of live memory ends the execution and is the violation.
#include "grads.hpp"
#include "views.hpp"
#include <deque>
#include <functional>
using namespace mc;

#ifdef MC_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static size_t heap() { return mallinfo2().uordblks; }
#endif

// f runs three times; the first run may set up caches of the C++ runtime.
// Afterwards the heap has to be exactly as large after f as before it.
static void no_leak(const std::function<void()> &f, const char *what) {
  f();
  f();
  size_t a = heap();
  f();
  size_t b = heap();
  if (b != a) { // allow for a one-off allocation of the runtime
    f();
    size_t c = heap();
    f();
    size_t d = heap();
    if (d > c)
      fail(fmt("%s leaks: %zu bytes per run", what, d - c));
  }
}

// ---------------------------------------------------------------- lifetimes
// A family of handles derived from each other; every order of dropping them,
// with every surviving handle read after every drop.
constexpr int N_FAM = 8;
static std::deque<Pair> family(int k) {
  std::deque<Pair> v;
  tape.reset();
  switch (k) {
  case 0: // base, view, view of view, clone of view
    v.push_back(q_new({2, 3}, INNC::f32, iota_vals(6, INNC::f32)));
    v.push_back(q_slice(v[0], {sl(1)}));
    v.push_back(q_transpose(v[1], 0, 1));
    v.push_back(q_clone(v[2]));
    v.push_back(q_reshape(v[2], {3}));
    break;
  case 1: // reshape of non-contiguous, detach, second handle
    v.push_back(q_new({2, 2}, INNC::f64, iota_vals(4, INNC::f64)));
    v.push_back(q_transpose(v[0], 0, 1));
    v.push_back(q_reshape(v[1], {4}));
    v.push_back(q_detach(v[1]));
    v.push_back(q_handle(v[0]));
    break;
  case 2: // graph: leaf, intermediate, view, root
    v.push_back(q_new({2, 2}, INNC::f64, iota_vals(4, INNC::f64), true));
    v.push_back(q_bin(MUL, v[0], v[0]));
    v.push_back(q_slice(v[1], {sl_i(1)}));
    v.push_back(q_clone(v[2]));
    v.push_back(q_sum(v[3]));
    break;
  case 3: // cat and arithmetic
    v.push_back(q_new({2}, INNC::i16, {3, -4}));
    v.push_back(q_new({2}, INNC::f32, {0.5L, 2}, true));
    {
      std::vector<Pair *> l{&v[0], &v[1], &v[0]};
      v.push_back(q_cat(l, 0));
    }
    v.push_back(q_slice(v[2], {sl({}, {}, -2)}));
    v.push_back(q_mean(v[3]));
    break;
  case 4: // casts
    v.push_back(q_new({3}, INNC::i32, {3, -4, 5}));
    v.push_back(q_cast(v[0], INNC::f64));
    v.push_back(q_cast(v[1], INNC::f64)); // may be the same tensor
    v.push_back(q_contiguous(v[1]));
    v.push_back(q_slice(v[3], {sl(0, 0)}));
    break;
  case 5: // known-gradient operations
    v.push_back(q_new({2, 2}, INNC::f32, {1, -2, 3, -4.5L}, true));
    v.push_back(q_abs(v[0]));
    v.push_back(q_transpose(v[1], 0, 1));
    v.push_back(q_max(v[2]));
    v.push_back(q_min(v[0]));
    break;
  case 6: // quotients
    v.push_back(q_new({2}, INNC::f64, {1, -2}, true));
    v.push_back(q_new({2, 1}, INNC::f64, {2, 4}, true));
    v.push_back(q_bin(DIV, v[0], v[1]));
    v.push_back(q_bin(DIV, v[1], v[2]));
    v.push_back(q_mean(v[3]));
    break;
  default: // one-element chain
    v.push_back(q_new({1}, INNC::f32, {2}, true));
    v.push_back(q_reshape(v[0], {}));
    v.push_back(q_reshape(v[1], {1, 1}));
    v.push_back(q_slice(v[2], {sl_i(0)}));
    v.push_back(q_neg(v[3]));
  }
  return v;
}
SPACE("drop orders", "8 families of 5 handles (base, views of views, copies, graph nodes): every order of dropping them (120), survivors "
                     "read after every drop") {
  int k = ch.pick(N_FAM);
  std::vector<int> left{0, 1, 2, 3, 4}, order;
  while (left.size() > 1) {
    int i = ch.pick(static_cast<int>(left.size()));
    order.push_back(left[i]);
    left.erase(left.begin() + i);
  }
  order.push_back(left[0]);
  ch.shard();
  no_leak([&] {
    auto v = family(k);
    for (int d : order) {
      LOG("drop handle %d", d);
      v[d].t = Tensor();
      v[d].m.buf = nullptr;
      for (auto &p : v)
        if (p.m.buf)
          check(p, "surviving handle");
      ch.step();
    }
  }, "dropping handles");
  uint64_t h = k;
  for (int o : order)
    h = hash_u64(h, o);
  ch.state(h);
  ch.outcome(h);
}
SPACE("backward after drops", "6 differentiable families: every subset of the handles dropped before backward from the last value, then every "
                              "subset order read; gradients and values of survivors are right, nothing leaks") {
  static const std::vector<int> fams = {2, 3, 5, 6, 7};
  int k = ch.of(fams);
  int mask = ch.pick(16); // dropped among the first four
  int retain = ch.pick(16);
  ch.shard();
  no_leak([&] {
    auto v = family(k);
    for (int i = 0; i < 4; ++i)
      if ((retain >> i & 1) && v[i].m.rg && !v[i].m.leaf)
        v[i].t.retain_grad(true);
    for (int i = 0; i < 4; ++i)
      if (mask >> i & 1) {
        LOG("drop handle %d", i);
        v[i].t = Tensor();
      }
    Pair &root = v.back();
    if (root.m.n() != 1)
      ch.prune();
    q_backward(root);
    Tol tol(1e-6L, 1e-11L);
    std::vector<Tensor> grads;
    for (int i = 0; i < 4; ++i)
      if (!(mask >> i & 1)) {
        check(v[i], "surviving handle");
        if (!v[i].m.rg)
          continue;
        if (v[i].m.leaf || (retain >> i & 1))
          q_check_grad(root, v[i], "gradient of a surviving handle");
        if (has_grad(v[i].t))
          grads.push_back(v[i].t.grad());
      }
    v.clear(); // gradients outlive the tensors
    for (auto &g : grads)
      if (g.to_string().empty())
        fail("empty rendering");
  }, "backward");
  ch.step(2);
  ch.outcome(hash_u64(k, mask * 16 + retain));
}
SPACE("handle algebra", "every sequence of 3 assignments (thorough 4) among three handles {copy, move, self, rebind to a view of itself, to a product of "
                        "itself, to a sum, to empty}: values follow a model of shared handles; nothing leaks") {
  int n = is_thorough() ? 4 : 3;
  std::vector<std::array<int, 3>> seq;
  for (int i = 0; i < n; ++i) {
    int op = ch.pick(6), x = ch.pick(3), y = ch.pick(3);
    if (op >= 2 && y != 0 && op != 5)
      ch.prune(); // unary on x
    if (op == 5 && x == y)
      ch.prune();
    seq.push_back({op, x, y});
  }
  ch.shard();
  no_leak([&] {
    tape.reset();
    Tensor h[3];
    std::optional<MT> m[3];
    for (int i = 0; i < 2; ++i) {
      Pair p = q_new({2, 2}, INNC::f64, {1.0L + i, 0.5L, -1, 2}, i == 0);
      h[i] = std::move(p.t);
      m[i] = p.m;
    }
    for (auto &s : seq) {
      int x = s[1], y = s[2];
      switch (s[0]) {
      case 0:
        LOG("h%d = h%d", x, y);
        h[x] = h[y];
        m[x] = m[y];
        break;
      case 1:
        LOG("h%d = move(h%d)", x, y);
        if (x == y)
          break; // self-move leaves a valid but unspecified value
        h[x] = std::move(h[y]);
        h[y] = Tensor();
        m[x] = m[y];
        m[y].reset();
        break;
      case 2:
        if (!m[x])
          break;
        LOG("h%d = h%d[::-1]", x, x);
        h[x] = h[x]["::-1"];
        m[x] = *m_slice(*m[x], {sl({}, {}, -1)});
        break;
      case 3:
        if (!m[x])
          break;
        LOG("h%d = h%d * h%d", x, x, x);
        h[x] = h[x] * h[x];
        m[x] = m_bin(MUL, *m[x], *m[x]);
        break;
      case 4:
        LOG("h%d = Tensor()", x);
        h[x] = Tensor();
        m[x].reset();
        break;
      default:
        if (!m[x] || !m[y])
          break;
        LOG("h%d = h%d + h%d", x, x, y);
        h[x] = h[x] + h[y];
        m[x] = m_bin(ADD, *m[x], *m[y]);
      }
      for (int i = 0; i < 3; ++i) {
        if (m[i]) {
          check(h[i], *m[i], "handle");
          check_flag(h[i], *m[i], "handle");
        } else if (h[i].to_string() != "[]")
          fail("an empty handle renders something");
      }
    }
  }, "assignment");
  ch.step(n);
  uint64_t hh = 0;
  for (auto &s : seq)
    hh = hash_u64(hh, s[0] * 9 + s[1] * 3 + s[2]);
  ch.state(hh);
  ch.outcome(hh);
}
SPACE("failures leak nothing", "every kind of rejected request, alone and after a successful operation") {
  int k = ch.pick(16);
  bool rg = ch.flip();
  ch.shard();
  no_leak([&] {
    Tensor a = r_new({2, 3}, INNC::f64, iota_vals(6, INNC::f64)), b = r_new({2, 2}, INNC::f32, {1, 2, 3, 4});
    Tensor e = Tensor::zeros({0}, INNC::f64);
    if (rg) {
      a.requires_grad(true);
      b.requires_grad(true);
    }
    Tensor m = a * a;
    bool t = throws([&] {
      switch (k) {
      case 0: m + b; break;
      case 1: m / b; break;
      case 2: m < b; break;
      case 3: m["5"]; break;
      case 4: m["0,0,0"]; break;
      case 5: m["::0"]; break;
      case 6: m.reshape({4}); break;
      case 7: m.transpose(0, 2); break;
      case 8: m.transpose(1, 1); break;
      case 9: m.backward(); break;
      case 10: { std::vector<Tensor> l; l.emplace_back(); l[0] = m; l.emplace_back(); l[1] = b; Tensor::cat(l, 0); break; }
      case 11: { std::vector<Tensor> l; Tensor::cat(l, 0); break; }
      case 12: { Tensor i = Tensor::ones({2}, INNC::i32); i / Tensor::zeros({2}, INNC::i8); break; }
      case 13: { Tensor i = Tensor::ones({2}, INNC::i32); i.requires_grad(true); break; }
      case 14: m["abc"]; break;
      default: m.reshape({-1, -1}); break;
      }
    });
    if (!t)
      fail(fmt("request %d was not rejected", k));
  }, "a rejected request");
  ch.step();
  ch.outcome(k);
}
SPACE("iterations", "training-like loops: x = x - step * grad, fresh graph per iteration, n iterations for n in 1..32: memory does not grow "
                    "with n and every intermediate is freed") {
  int n = 1 + ch.pick(32), form = ch.pick(4);
  ch.shard();
  auto body = [&](int iters) {
    Tensor w = r_new({2, 2}, INNC::f64, {1, 2, -3, 4});
    w.requires_grad(true);
    for (int i = 0; i < iters; ++i) {
      Tensor L;
      if (form == 0)
        L = (w * w).sum();
      else if (form == 1)
        L = (w.transpose(0, 1) * w).mean();
      else if (form == 2)
        L = (w["0"] / w["1"]).sum();
      else {
        std::vector<Tensor> l;
        l.emplace_back();
        l[0] = w;
        l.push_back(w.abs());
        L = Tensor::cat(l, 1).reshape({8}).max();
      }
      L.backward();
      if (form != 1) {
        Tensor nw = (w.detach() - w.grad() * Tensor(0.125)).detach();
        nw.requires_grad(true);
        w = std::move(nw);
      } else
        w.zero_grad();
      if (w.to_string().empty())
        fail("empty");
    }
  };
  no_leak([&] { body(n); }, "a training loop");
  ch.step(n);
  ch.outcome(hash_u64(n, form));
}

SPACE("long graphs", "chains of n = 1000, 60000 (thorough 400000) operations of 8 kinds, run backward or not, the end, the middle or the start dropped "
                     "first: the graph is usable as long as it is held and taking it apart needs no more than a bounded stack") {
  static const char *kinds[] = {"x + c", "x + x", "slice", "transpose", "reshape", "clone", "abs", "cat"};
  int kind = ch.pick(8), n = ch.flip() ? (is_thorough() ? 400000 : 60000) : 1000;
  ch.shard();
  bool back = ch.flip();
  int first = ch.pick(3);
  LOG("%s repeated %d times", kinds[kind], n);
  Tensor a = r_new({1, 2}, INNC::f64, {1, 2}), c = r_new({}, INNC::f64, {0.5L});
  a.requires_grad(true);
  size_t before = heap(), after;
  {
    Tensor x = a * c, mid;
    for (int i = 0; i < n; ++i) {
      switch (kind) {
      case 0: x = x + c; break;
      case 1: x = (x + x) * c; break;
      case 2: x = x["0:"]; break;
      case 3: x = x.transpose(0, 1); break;
      case 4: x = x.reshape({i % 2 ? 1 : 2, -1}); break;
      case 5: x = x.clone(); break;
      case 6: x = x.abs(); break;
      default: {
        std::vector<Tensor> l;
        l.push_back(std::move(x));
        x = Tensor::cat(l, 0);
      }
      }
      if (i == n / 2)
        mid = x;
    }
    if (back) {
      LOG("backward from the end");
      x.sum().backward();
      check_grad(a, INNC::f64, {1, 2}, {0.5L, 0.5L}, "gradient through the chain");
      a.zero_grad();
    }
    if (first == 0)
      x = Tensor();
    else if (first == 1)
      mid = Tensor();
    else if (!back) {
      x = Tensor();
      LOG("backward from the middle");
      mid.sum().backward();
      check_grad(a, INNC::f64, {1, 2}, {0.5L, 0.5L}, "gradient through half of the chain");
    }
  }
  after = heap();
  // what stays: the leaf's gradient
  if (after > before + 4096)
    fail(fmt("%zu bytes are left of a graph nobody holds", after - before));
  ch.step(n);
  ch.outcome(hash_u64(kind, n * 6 + back * 3 + first));
}
SPACE("release", "release() of tensors of 10 shapes x 6 dtypes x {whole, view, clone, gradient}: the memory is returned at once, "
                 "metadata stays, a second release and dropping are harmless, copies are unaffected") {
  static const std::vector<Shape> ss = {{}, {1}, {3}, {100}, {2, 3}, {0}, {2, 0}, {4, 1, 2}, {33, 17}, {2, 2, 2, 2}};
  const Shape &s = ch.of(ss);
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  int who = ch.pick(4);
  if (who == 3 && !isf(dt))
    ch.prune();
  no_leak([&] {
    Pair a = q_new(s, dt, iota_vals(numel(s), dt, 1));
    Pair c = q_clone(a);
    Tensor t;
    if (who == 0)
      t = a.t;
    else if (who == 1)
      t = a.t.detach();
    else if (who == 2)
      t = a.t.clone();
    else {
      a.t.requires_grad(true);
      a.t.sum().backward();
      t = a.t.grad();
    }
    size_t h0 = heap();
    LOG("release()");
    t.release();
    size_t h1 = heap();
    if (is_asan() && h0 - h1 < numel(s) * tsize(dt))
      fail(fmt("release() returned %zu of %zu bytes", h0 - h1, numel(s) * tsize(dt)));
    t.release();
    if (t.size() != sv(s) || t.type() != dt || t.numel() != static_cast<size_t>(numel(s)))
      fail("release() changed the metadata");
    check(c, "copy made before the release");
    if (who >= 2)
      check(a, "the original after its copy or gradient was released");
  }, "a release");
  ch.step(2);
  ch.state(hash_u64(numel(s) * 6 + dt, who));
  ch.outcome(hash_u64(numel(s) * 6 + dt, who));
}

SPACE("leaks by size", "16 operations, with and without backward, on tensors of 8 B to 256 kB (thorough: 1 MB, around every power of two from 4 kB up) x {i8,f32,f64}: every "
                       "byte is returned") {
  static const std::vector<int> bytes = [] {
    if (!is_thorough())
      return std::vector<int>{8, 1000, 4104, 16392, 65528, 65536, 65544, 131080, 262152};
    std::vector<int> v{8, 64, 1000, 2048};
    for (int k = 12; k <= 20; ++k) {
      v.push_back((1 << k) - 8);
      v.push_back(1 << k);
      v.push_back((1 << k) + 8);
    }
    return v;
  }();
  static const std::vector<types> ts = {INNC::i8, INNC::f32, INNC::f64};
  int b = ch.of(bytes);
  types dt = ch.of(ts);
  size_t n = b / tsize(dt);
  if (n > 33000 && !is_thorough() && !(dt == INNC::i8 && b == 65544))
    ch.prune();
  ch.shard();
  for (int o = 0; o < 16; ++o) {
    LOG("operation %d on %zu x %s", o, n, tname(dt));
    no_leak([&] {
      Tensor a = Tensor::ones({n}, dt);
      if (isf(dt) && o != 14 && o != 15)
        a.requires_grad(true);
      Tensor r;
      switch (o) {
      case 0: r = a + a; break;
      case 1: r = a - Tensor(1.5); break;
      case 2: r = a * a; break;
      case 3: r = a / Tensor(2.0); break;
      case 4: r = -a; break;
      case 5: r = a.abs(); break;
      case 6: r = a.clone(); break;
      case 7: r = a.contiguous(); break;
      case 8: r = a["::2"].reshape({-1}); break;
      case 9: r = a.type(INNC::f64); break;
      case 10: r = a < a; break;
      case 11: { std::vector<Tensor> l; l.emplace_back(); l[0] = a; l.push_back(a.detach()); r = Tensor::cat(l, 0); break; }
      case 12: r = Tensor::zeros_like(a); break;
      case 13: r = a.mean(); break;
      case 14: a += a; break;
      default: r = Tensor::randn_like(Tensor::ones({n}, INNC::f64)); break;
      }
      if (o != 14 && r.requires_grad()) {
        Tensor L = r.sum();
        L.backward();
        a.zero_grad();
      }
    }, fmt("operation %d on %d bytes", o, b).c_str());
    ch.step();
  }
  ch.state(hash_u64(b, dt));
  ch.outcome(hash_u64(b, dt));
}
