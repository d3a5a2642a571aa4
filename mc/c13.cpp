// C13: gradients of composite programs; every path counted exactly once.
#include "grads.hpp"
#include "views.hpp"
#include <deque>
using namespace mc;

// ------------------------------------------------------------ all programs
// A program is a sequence of steps; each step applies one operation to values
// computed so far.  The root is the last value, reduced to a scalar.
struct Step {
  int op; // 0..3 binary, 10.. unary
  int a, b;
};
// Programs that touch f32 only use operations that stay exact on the dyadic
// values in use, so that no comparison depends on the order of roundings.
static bool f32_around = false;
static bool pow2(num x) {
  int e;
  return x != 0 && std::fabs(std::frexp(x, &e)) == 0.5L;
}
static bool exact_div(const MT &den) {
  for (int i = 0; i < den.n(); ++i)
    if (!pow2(den.at(i)))
      return false;
  return true;
}
static bool rank2(const MT &m) { return m.shape.size() == 2; }
static Pair unary_step(Chooser &ch, int u, Pair &a) {
  switch (u) {
  case 0: return q_neg(a);
  case 1: return q_abs(a);
  case 2: return q_clone(a);
  case 3: return q_sum(a);
  case 4:
    if (f32_around && !pow2(a.m.n()))
      ch.prune();
    return q_mean(a);
  case 5: return q_max(a);
  case 6: return q_min(a);
  case 7:
    if (a.m.shape.empty())
      ch.prune();
    return q_slice(a, {sl({}, {}, -1)});
  case 8:
    if (a.m.shape.empty())
      ch.prune();
    return q_slice(a, {sl(1)});
  case 9:
    if (!rank2(a.m))
      ch.prune();
    return q_transpose(a, 0, 1);
  case 10:
    if (a.m.shape.size() == 1)
      ch.prune();
    return q_reshape(a, {a.m.n()});
  case 11:
    if (!f32_around)
      ch.prune();
    if (a.m.dt == INNC::f64)
      return q_cast(a, INNC::f32);
    return q_cast(a, INNC::f64);
  case 12:
    if (a.m.shape.empty() || a.m.shape[0] == 0)
      ch.prune();
    return q_slice(a, {sl_i(-1)});
  default:
    if (a.m.shape.empty())
      ch.prune();
    std::vector<Pair *> v{&a, &a};
    return q_cat(v, 0);
  }
}
constexpr int N_UNARY = 14;
static bool tame(const MT &m) {
  if (m.n() == 0)
    return false;
  for (int i = 0; i < m.n(); ++i)
    if (!std::isfinite(m.at(i)) || std::fabs(m.at(i)) > 1e4L)
      return false;
  for (auto &d : m.d)
    for (double x : d)
      if (std::fabs(x) > 1e4)
        return false;
  return true;
}
static void finish(Chooser &ch, std::deque<Pair> &pool, int leaves, int how, bool drop, bool retain) {
  Pair &last = pool.back();
  if (!last.m.rg || tape.ambiguous)
    ch.prune();
  Pair L = last.m.n() == 1 && how == 0 ? q_handle(last)
                                       : weighted(last, INNC::f64, how % 2);
  if (L.m.n() != 1)
    fail("harness: root is not a scalar");
  if (how == 0 && L.m.leaf)
    ch.prune();
  std::deque<MT> kept;
  if (drop) { // only the leaves and the root keep a handle
    Pair root = q_handle(L);
    for (size_t i = leaves; i < pool.size(); ++i)
      pool[i].t = Tensor();
    L.t = Tensor();
    L.t = root.t;
  }
  if (retain)
    for (size_t i = leaves; i < pool.size(); ++i)
      if (pool[i].m.rg)
        pool[i].t.retain_grad(true);
  q_backward(L);
  Tol tol(3e-5L, 1e-9L);
  for (int i = 0; i < leaves; ++i) {
    q_check_grad(L, pool[i], i ? "gradient of the second leaf" : "gradient of the first leaf");
    check(pool[i], "leaf after backward");
  }
  if (!drop)
    for (size_t i = leaves; i < pool.size(); ++i) {
      if (pool[i].m.rg) {
        if (retain) {
          if (!(how == 0 && i + 1 == pool.size()))
            q_check_grad(L, pool[i], "retained gradient of an intermediate value");
        } else if (has_grad(pool[i].t))
          fail("an intermediate value kept its gradient without being asked to");
      } else if (has_grad(pool[i].t))
        fail("a value that does not require grad got a gradient");
      check(pool[i], "intermediate value after backward");
    }
  ch.step(1);
  uint64_t h = h_model(L.m);
  for (double d : L.m.d[0])
    h = hash_bytes(h, &d, sizeof d);
  ch.outcome(h);
}
static void program(Chooser &ch, int depth, std::deque<Pair> &pool, int leaves, bool sharded) {
  uint64_t h = 7;
  for (int k = 0; k < depth; ++k) {
    int n = static_cast<int>(pool.size());
    // binary: 4 ops x n x n; unary: N_UNARY x n
    int c = ch.pick(4 * n * n + N_UNARY * n);
    if (k == depth - 1 && sharded)
      ch.shard();
    Pair r;
    if (c < 4 * n * n) {
      Pair &a = pool[c / 4 / n], &b = pool[c / 4 % n];
      if (!bshape(a.m.shape, b.m.shape))
        ch.prune();
      if (c % 4 == DIV && f32_around && !exact_div(b.m))
        ch.prune();
      r = q_bin(static_cast<Op>(c % 4), a, b);
    } else {
      c -= 4 * n * n;
      r = unary_step(ch, c % N_UNARY, pool[c / N_UNARY]);
    }
    ch.step();
    if (tape.ambiguous || !tame(r.m))
      ch.prune();
    // only programs in which the new value matters for differentiation
    if (k == depth - 1 && !r.m.rg)
      ch.prune();
    h = hash_u64(h, h_model(r.m));
    ch.state(h);
    pool.push_back(std::move(r));
  }
}
static void leaves2(std::deque<Pair> &pool, int kind) {
  tape.reset();
  f32_around = kind == 1 || kind == 3;
  switch (kind) {
  case 0: // both leaves need a gradient; broadcasting between them
    pool.push_back(q_new({2, 2}, INNC::f64, {1.5L, -2, 3, 0.5L}, true));
    pool.push_back(q_new({2}, INNC::f64, {-0.75L, 2.5L}, true));
    break;
  case 3: // mixed floating types
    pool.push_back(q_new({2}, INNC::f64, {1.5L, -2}, true));
    pool.push_back(q_new({2, 1}, INNC::f32, {-0.5L, 4}, true));
    break;
  case 1: // a leaf and an integer constant
    pool.push_back(q_new({2, 2}, INNC::f32, {2, -1.5L, 0.25L, 3}, true));
    pool.push_back(q_new({2, 1}, INNC::i32, {3, -2}, false));
    break;
  default: { // a leaf that is itself a strided view, and a scalar
    Pair v = make_layout(6, {2, 2}, INNC::f64, {1.25L, -3, 2, -0.5L});
    q_require(v);
    pool.push_back(std::move(v));
    pool.push_back(q_new({}, INNC::f64, {-1.5L}, true));
  }
  }
}
SPACE("programs", "all programs of 1..3 steps (thorough 4) over 4 binary operations and 14 unary/view/reduction operations on two "
                  "f64 leaves ({2,2} and {2}, broadcasting); every value may be used any number of "
                  "times; intermediates alive") {
  int depth = 1 + ch.pick(is_asan() ? 2 : is_thorough() ? 4 : 3);
  std::deque<Pair> pool;
  leaves2(pool, 0);
  program(ch, depth, pool, 2, true);
  finish(ch, pool, 2, 1, false, false);
}
SPACE("programs, variants", "all programs of 1..2 steps (thorough 3) x 4 leaf configurations (f64/f64, f32/integer constant, strided view/scalar, mixed f64/f32) x {intermediate handles "
                            "dropped or kept} x {every intermediate retains its gradient or none} x {root used "
                            "directly, weighted sum}") {
  int kind = ch.pick(4), how = ch.pick(2), mode = ch.pick(3);
  int depth = 1 + ch.pick(is_thorough() ? 3 : 2);
  std::deque<Pair> pool;
  leaves2(pool, kind);
  program(ch, depth, pool, 2, true);
  finish(ch, pool, 2, how, mode == 1, mode == 2);
}
// ------------------------------------------------------------ all topologies
SPACE("topologies", "every DAG of up to 5 binary nodes over one leaf (6 in thorough with the operation fixed per "
                    "node): each node picks any two earlier values; products and differences; every edge is a path "
                    "that must be counted exactly once") {
  int n = 1 + ch.pick(is_asan() ? 4 : is_thorough() ? 6 : 5);
  tape.reset();
  std::deque<Pair> pool;
  pool.push_back(q_new({2}, INNC::f64, {1.25L, -0.75L}, true));
  uint64_t h = 1;
  for (int k = 0; k < n; ++k) {
    int m = static_cast<int>(pool.size());
    int c = ch.pick(m * m);
    int op = n >= 5 ? (k % 2 ? MUL : SUB) : ch.pick(2) ? MUL : SUB;
    if (k == n - 1)
      ch.shard();
    Pair r = q_bin(static_cast<Op>(op), pool[c / m], pool[c % m]);
    ch.step();
    h = hash_u64(h, c * 2 + op);
    ch.state(h);
    pool.push_back(std::move(r));
  }
  Pair L = q_sum(pool.back());
  q_backward(L);
  Tol tol(1e-5L, 1e-9L);
  q_check_grad(L, pool[0], "gradient of the leaf");
  for (size_t i = 1; i < pool.size(); ++i)
    if (has_grad(pool[i].t))
      fail("an intermediate value kept its gradient without being asked to");
  ch.outcome(h_model(L.m));
}
SPACE("topologies of views", "every DAG of up to 3 nodes (thorough 4) over one {2,2} leaf where a node is a transpose, row, "
                             "reversal, flat reshape, clone or a sum/product of two earlier values (equal shapes)") {
  int n = 1 + ch.pick(is_thorough() ? 4 : 3);
  tape.reset();
  std::deque<Pair> pool;
  pool.push_back(q_new({2, 2}, INNC::f32, {1, -2, 3, -4}, true));
  uint64_t h = 1;
  for (int k = 0; k < n; ++k) {
    int m = static_cast<int>(pool.size());
    int c = ch.pick(2 * m * m + 6 * m);
    if (k == n - 1)
      ch.shard();
    Pair r;
    if (c < 2 * m * m) {
      Pair &a = pool[c / 2 / m], &b = pool[c / 2 % m];
      if (!bshape(a.m.shape, b.m.shape))
        ch.prune();
      r = q_bin(c % 2 ? MUL : ADD, a, b);
    } else {
      c -= 2 * m * m;
      Pair &a = pool[c / 6];
      switch (c % 6) {
      case 0:
        if (!rank2(a.m))
          ch.prune();
        r = q_transpose(a, 0, 1);
        break;
      case 1:
        if (a.m.shape.empty())
          ch.prune();
        r = q_slice(a, {sl_i(1)});
        break;
      case 2:
        if (a.m.shape.empty())
          ch.prune();
        r = q_slice(a, {sl({}, {}, -1)});
        break;
      case 3:
        if (a.m.shape.size() == 1)
          ch.prune();
        r = q_reshape(a, {a.m.n()});
        break;
      case 4:
        r = q_clone(a);
        break;
      default:
        if (a.m.shape.size() != 1 || a.m.n() % 2)
          ch.prune();
        r = q_reshape(a, {2, a.m.n() / 2});
      }
    }
    ch.step();
    h = hash_u64(h, h_model(r.m));
    ch.state(h);
    pool.push_back(std::move(r));
  }
  Pair L = weighted(pool.back(), INNC::f64, 0);
  q_backward(L);
  Tol tol(1e-5L, 1e-9L);
  q_check_grad(L, pool[0], "gradient of the leaf");
  ch.outcome(h_model(L.m));
}
// ------------------------------------------------------- scale: closed forms
SPACE("ladders", "chains, fan-outs, fan-ins, diamond ladders and mixed-depth joins for every size 1..64 and around "
                 "powers of two up to 1024 (thorough 4096), 5000, 65537, 100000, 400000 (chains): closed forms") {
  int form = ch.pick(9);
  static const auto sizes = [] {
    std::vector<int> v;
    for (int i = 1; i <= 64; ++i)
      v.push_back(i);
    for (int p = 128; p <= (is_thorough() ? 4096 : 1024); p *= 2)
      for (int d = -1; d <= 1; ++d)
        v.push_back(p + d);
    for (int x : {300, 5000, 65537, 100000, 400000})
      v.push_back(x);
    return v;
  }();
  int n = ch.of(sizes);
  if (n > 100000 && (is_asan() || (form != 0 && form != 5 && form != 6)))
    ch.prune();
  ch.shard();
  types dt = INNC::f64;
  Tensor a = r_new({2}, dt, {1.5L, -0.5L}), two = r_new({}, dt, {2});
  a.requires_grad(true);
  num ga = 0, gb = 0; // expected gradient of the two elements
  Tensor L;
  LOG("form %d size %d", form, n);
  switch (form) {
  case 0: { // chain of additions of a constant
    Tensor x;
    x = a;
    for (int i = 0; i < n; ++i)
      x = x + two;
    L = x.sum();
    ga = gb = 1;
    break;
  }
  case 1: { // fan-out: n uses of the same leaf
    Tensor x = a * two;
    for (int i = 1; i < n; ++i)
      x = x + a * two;
    L = x.sum();
    ga = gb = 2 * n;
    break;
  }
  case 2: { // an intermediate used n times
    Tensor m = a * two, x = m + two;
    for (int i = 1; i < n; ++i)
      x = x + m;
    L = x.sum();
    ga = gb = 2 * n;
    break;
  }
  case 3: { // balanced tree over n leaves' uses
    std::vector<Tensor> l;
    for (int i = 0; i < n; ++i)
      l.push_back(a * two);
    while (l.size() > 1) {
      std::vector<Tensor> nx;
      for (size_t i = 0; i + 1 < l.size(); i += 2)
        nx.push_back(l[i] + l[i + 1]);
      if (l.size() % 2)
        nx.push_back(std::move(l.back()));
      l = std::move(nx);
    }
    L = l[0].sum();
    ga = gb = 2 * n;
    break;
  }
  case 4: { // diamond ladder: x <- (x + x) / 2 : every level doubles the paths
    Tensor x;
    x = a;
    for (int i = 0; i < n; ++i)
      x = (x + x) / two;
    L = x.sum();
    ga = gb = 1;
    break;
  }
  case 5: { // joins of paths of very different length
    Tensor x;
    x = a;
    for (int i = 0; i < n; ++i)
      x = x + two;
    x = x * a; // (a + 2n) * a
    L = x.sum();
    ga = 2 * 1.5L + 2 * n;
    gb = 2 * -0.5L + 2 * n;
    break;
  }
  case 6: { // every level also uses the leaf: x <- x + a
    Tensor x = a * two;
    for (int i = 0; i < n; ++i)
      x = x + a;
    L = x.sum();
    ga = gb = n + 2;
    break;
  }
  case 7: { // n views of one leaf, all overlapping
    Tensor x = a["0"] * two;
    for (int i = 1; i < n; ++i)
      x = x + a["0"] * two;
    L = x.sum();
    ga = 2 * n;
    break;
  }
  default: { // cat of n copies
    std::vector<Tensor> l;
    for (int i = 0; i < n; ++i) {
      l.emplace_back();
      l.back() = a;
    }
    L = (Tensor::cat(l) * two).sum();
    ga = gb = 2 * n;
  }
  }
  L.backward();
  Tol tol(1e-6L, 1e-11L);
  check_grad(a, dt, {2}, {ga, gb}, "gradient of the leaf");
  ch.step(n);
  ch.outcome(hash_u64(form, n));
}
SPACE("wide joins", "a value consumed by k chains of lengths l1..lk that join again, all (l1..lk) in 0..4, k <= 3 (thorough 0..6, k <= 4): the "
                    "order in which paths arrive never matters") {
  int k = 1 + ch.pick(is_thorough() ? 4 : 3), mx = is_thorough() ? 7 : 5;
  std::vector<int> l;
  for (int i = 0; i < k; ++i)
    l.push_back(ch.pick(mx));
  bool order = ch.flip(), inner = ch.flip();
  ch.shard();
  tape.reset();
  Pair a = q_new({2}, INNC::f64, {1.5L, -0.25L}, true), one = q_new({2}, INNC::f64, {0.5L, -2});
  Pair m = inner ? q_bin(MUL, a, one) : q_handle(a);
  std::vector<Pair> ends;
  for (int i = 0; i < k; ++i) {
    Pair x = q_handle(m);
    for (int j = 0; j < l[i]; ++j)
      x = j % 2 ? q_bin(SUB, one, x) : q_bin(MUL, x, one);
    ends.push_back(std::move(x));
  }
  Pair j = q_handle(ends[0]);
  for (int i = 1; i < k; ++i)
    j = order ? q_bin(MUL, j, ends[i]) : q_bin(MUL, ends[i], j);
  if (j.m.leaf)
    j = q_neg(j);
  Pair L = q_sum(j);
  q_backward(L);
  Tol tol(1e-6L, 1e-10L);
  q_check_grad(L, a, "gradient of the leaf");
  ch.step(1);
  ch.state(h_model(L.m));
  ch.outcome(h_model(L.m));
}
