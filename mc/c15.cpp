// C15: who tracks gradients and who receives one.
#include "again.hpp"
#include "grads.hpp"
#include "views.hpp"
#include <deque>
using namespace mc;

constexpr int N_OPS = 20;
static const char *opn[N_OPS] = {"+", "-", "*", "/", "neg", "abs", "clone", "contiguous", "detach", "sum", "mean",
                                 "max", "min", "row", "reverse", "transpose", "reshape", "cast", "cat", "reshape_as"};
// applies operation o to a (and b); prunes when it does not apply
static Pair apply_op(Chooser &ch, int o, Pair &a, Pair &b) {
  if (o < 4 || o == 18) {
    if (!bshape(a.m.shape, b.m.shape))
      ch.prune();
    if (o == 18) {
      if (a.m.shape != b.m.shape || a.m.shape.empty())
        ch.prune();
      std::vector<Pair *> v{&a, &b};
      return q_cat(v, 0);
    }
    if (o == DIV && !isf(promote(a.m.dt, b.m.dt)))
      ch.prune();
    return q_bin(static_cast<Op>(o), a, b);
  }
  switch (o) {
  case 4: return q_neg(a);
  case 5: return q_abs(a);
  case 6: return q_clone(a);
  case 7: return q_contiguous(a);
  case 8: return q_detach(a);
  case 9: return q_sum(a);
  case 10: return q_mean(a);
  case 11: return q_max(a);
  case 12: return q_min(a);
  case 13:
    if (a.m.shape.empty())
      ch.prune();
    return q_slice(a, {sl_i(0)});
  case 14:
    if (a.m.shape.empty())
      ch.prune();
    return q_slice(a, {sl({}, {}, -1)});
  case 15:
    if (a.m.shape.size() < 2)
      ch.prune();
    return q_transpose(a, 0, 1);
  case 16:
    return q_reshape(a, {a.m.n()});
  case 17: {
    if (!isf(a.m.dt))
      return q_cast(a, INNC::f32);
    return q_cast(a, a.m.dt == INNC::f64 ? INNC::f32 : INNC::f64);
  }
  default: {
    Tensor like = Tensor::zeros({static_cast<size_t>(a.m.n()), 1}, INNC::i8);
    Pair r{a.t.reshape_as(like), m_reshape(a.m, {a.m.n(), 1}, true)};
    return r;
  }
  }
}
static void flags(const Pair &p, const char *what) {
  check_flag(p.t, p.m, what);
}
SPACE("propagation", "every operation on every combination of operands that require grad or not, {f32,f64,i32} operands, 10 layouts, "
                     "rank 0..3: the result requires grad exactly if a differentiable operand does; comparisons and "
                     "detached results never; retain_grad is never inherited") {
  static const std::vector<Shape> ss = {{}, {1}, {3}, {2, 2}, {1, 2}, {2, 1, 2}};
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  int o = ch.pick(N_OPS + 6);
  static const std::vector<types> ts = {INNC::f32, INNC::f64, INNC::i32};
  types ta = ch.of(ts), tb = ch.of(ts);
  int ra = ch.pick(3), rb = ch.pick(3);
  if ((!isf(ta) && ra) || (!isf(tb) && rb))
    ch.prune();
  tape.reset();
  Operand a = operand(ra, k, s, ta, pow2_vals(numel(s), ta, 1));
  Operand b = operand(rb, 0, s, tb, pow2_vals(numel(s), tb, 2));
  if (ra)
    a.v.t.retain_grad(true);
  if (o >= N_OPS) {
    LOG("comparison %s", cmp_str[o - N_OPS]);
    Tensor c = r_cmp(static_cast<Cmp>(o - N_OPS), a.v.t, b.v.t);
    if (c.requires_grad())
      fail("a comparison requires grad");
    if (c.retain_grad())
      fail("a comparison retains grad");
  } else {
    Pair r = apply_op(ch, o, a.v, b.v);
    flags(r, opn[o]);
    // contiguous() of a contiguous tensor and casts to the same type may
    // return the tensor itself
    if (o != 7 && r.t.retain_grad())
      fail(fmt("the result of %s inherited retain_grad", opn[o]));
    if (has_grad(r.t))
      fail(fmt("the result of %s has a gradient before any backward", opn[o]));
  }
  flags(a.v, "operand after the operation");
  flags(b.v, "operand after the operation");
  if (has_grad(a.v.t) || has_grad(b.v.t))
    fail("an operand has a gradient before any backward");
  ch.step();
  ch.state(hash_u64(h_layout(a.v.m), o * 9 + ra * 3 + rb));
  ch.outcome(hash_u64(o, ra * 3 + rb));
}
SPACE("receivers", "all programs of 1..2 operations (20 operations, thorough 3) over two operands, each constant or leaf, every subset of the "
                   "intermediates retaining its gradient: after backward exactly the leaves that require grad and the "
                   "retained intermediates hold one (the right one), constants, detached values and the rest hold none") {
  int kind = ch.pick(4); // which operands require grad; 3: both, second f32
  int depth = 1 + ch.pick(is_thorough() ? 3 : 2);
  tape.reset();
  std::deque<Pair> pool;
  pool.push_back(q_new({2, 2}, INNC::f64, {2, -1, 4, 0.5L}, kind != 1));
  pool.push_back(q_new({2, 2}, kind == 0 ? INNC::i16 : kind == 3 ? INNC::f32 : INNC::f64,
                       {4, -2, 8, -1}, kind != 0));
  std::vector<bool> ret(2, false);
  for (int k = 0; k < depth; ++k) {
    int n = static_cast<int>(pool.size());
    int o = ch.pick(N_OPS), x = ch.pick(n), y = o < 4 || o == 18 ? ch.pick(n) : 0;
    bool r = ch.flip();
    if (k == depth - 1)
      ch.shard();
    Pair p = apply_op(ch, o, pool[x], pool[y]);
    ch.step();
    if (p.m.n() == 0 || tape.ambiguous)
      ch.prune();
    bool same = o == 7; // may be the same tensor: do not ask it to retain
    if (r) {
      if (same)
        ch.prune();
      LOG("retain_grad(true)");
      p.t.retain_grad(true);
      if (!p.t.retain_grad())
        fail("retain_grad() forgot what was set");
    }
    if (same) { // treat contiguous() through a clone so that identity never matters
      p = q_clone(p);
    }
    pool.push_back(std::move(p));
    ret.push_back(r);
  }
  Pair &last = pool.back();
  if (!last.m.rg)
    ch.prune();
  Pair w = q_new(last.m.shape, INNC::f64, weights(last.m.n(), 1));
  Pair prod = q_bin(MUL, last, w);
  Pair L = q_sum(prod);
  q_backward(L);
  Tol tol(1e-5L, 1e-9L);
  for (size_t i = 0; i < pool.size(); ++i) {
    Pair &p = pool[i];
    flags(p, "flag after backward");
    if (!p.m.rg) {
      if (has_grad(p.t))
        fail(fmt("value %zu does not require grad but got a gradient", i));
      continue;
    }
    if (i < 2 || ret[i])
      q_check_grad(L, p, i < 2 ? "leaf" : "retained intermediate");
    else if (has_grad(p.t))
      fail(fmt("intermediate value %zu kept a gradient nobody asked for", i));
  }
  if (has_grad(w.t) || has_grad(prod.t) || has_grad(L.t))
    fail("a constant or unretained intermediate holds a gradient");
  ch.state(h_model(L.m));
  ch.outcome(h_model(L.m));
}
SPACE("detach", "f(detach(g(a))) op h(a) for every choice of g, f, h in {identity, product, row, transpose, clone} and {+,*}: "
                "nothing flows through detach, everything else does; the same for detach of a view and view of detach") {
  int g = ch.pick(5), f = ch.pick(5), hh = ch.pick(5);
  ch.shard();
  auto ap = [&](int u, Pair &p) {
    switch (u) {
    case 0: return q_handle(p);
    case 1: return q_bin(MUL, p, q_new({}, INNC::f64, {3}));
    case 2: return q_slice(p, {sl(0, 1)});
    case 3: return p.m.shape[0] == p.m.shape[1] ? q_transpose(p, 0, 1) : q_handle(p);
    default: return q_clone(p);
    }
  };
  for (Op op : {ADD, MUL})
    for (int order = 0; order < 2; ++order) {
      tape.reset();
      Pair a = q_new({2, 2}, INNC::f64, {1.5L, -2, 3, 0.25L}, true);
      Pair x = ap(g, a);
      Pair d = q_detach(x);
      flags(d, "detached");
      Pair y = ap(f, d);
      flags(y, "derived from a detached value");
      Pair z = ap(hh, a);
      Pair r = order ? q_bin(op, z, y) : q_bin(op, y, z);
      Pair L = weighted(r, INNC::f64, 0);
      q_backward(L);
      q_check_grad(L, a, "gradient next to a detached branch");
      if (has_grad(d.t) || has_grad(y.t))
        fail("a detached value got a gradient");
      check(d, "detached value");
      flags(d, "detached after backward");
      ch.step(3);
      ch.outcome(h_model(L.m));
    }
}
SPACE("toggling", "all sequences up to length 4 of {requires_grad(true), requires_grad(false)} and {retain_grad(true), (false)} on a fresh tensor of "
                  "every dtype: the flag is what was last set (integers refuse), and a use afterwards tracks accordingly") {
  types dt = ch.of(ALL_TYPES);
  int n = ch.pick(5);
  std::vector<int> seq;
  for (int i = 0; i < n; ++i)
    seq.push_back(ch.pick(4));
  ch.shard();
  Tensor a = r_new({2}, dt, {1, 2});
  bool rg = false, ret = false;
  for (int x : seq) {
    if (x < 2) {
      LOG("requires_grad(%d)", x);
      if (x && !isf(dt)) {
        if (!throws([&] { a.requires_grad(true); }))
          fail("an integer tensor accepted requires_grad(true)");
      } else {
        a.requires_grad(x != 0);
        rg = x != 0;
      }
    } else {
      LOG("retain_grad(%d)", x - 2);
      a.retain_grad(x == 3);
      ret = x == 3;
    }
    if (a.requires_grad() != rg)
      fail(fmt("requires_grad() is %d, expected %d", a.requires_grad(), rg));
    if (a.retain_grad() != ret)
      fail(fmt("retain_grad() is %d, expected %d", a.retain_grad(), ret));
    ch.step();
  }
  Tensor y = a * r_new({2}, INNC::f64, {3, 5});
  if (y.requires_grad() != rg)
    fail("the result does not follow the operand's flag");
  Tensor L = y.sum();
  if (rg) {
    L.backward();
    check_grad(a, dt, {2}, {3, 5}, "gradient");
  } else {
    if (!throws([&] { L.backward(); }))
      fail("backward() of a value that tracks nothing did not throw");
    if (has_grad(a))
      fail("gradient without requires_grad");
  }
  ch.outcome(hash_u64(dt, rg * 2 + ret));
}
SPACE("sources", "every way to construct a tensor x every dtype: does not require grad, retains nothing, has no gradient") {
  types dt = ch.of(ALL_TYPES);
  int how = ch.pick(12);
  ch.shard();
  Tensor like = Tensor::ones({2, 3}, isf(dt) ? dt : INNC::f32);
  like.requires_grad(true);
  like.retain_grad(true);
  Tensor t;
  switch (how) {
  case 0: t = Tensor::zeros({2, 3}, dt); break;
  case 1: t = Tensor::ones({2, 3}, dt); break;
  case 2: t = Tensor::full({2, 3}, std::int64_t(3), dt); break;
  case 3: t = Tensor::full({2, 3}, 2.0, dt); break;
  case 4: t = Tensor::eye(3, dt); break;
  case 5: t = Tensor::eye(3, 2, dt); break;
  case 6: t = r_new({2}, dt, {1, 2}); break;
  case 7: t = Tensor::zeros_like(like); break;
  case 8: t = Tensor::ones_like(like); break;
  case 9: t = Tensor(SizeVec{2, 2}, dt); break;
  case 10: t = Tensor::randn_like(like); break;
  default: t = Tensor(3.5); break;
  }
  if (t.requires_grad() || t.retain_grad() || has_grad(t))
    fail("a new tensor tracks gradients");
  if (!like.requires_grad() || has_grad(like))
    fail("the prototype changed");
  ch.step();
  ch.outcome(hash_u64(dt, how));
}

SPACE("roots", "backward directly from a one-element result: 20 operations x {rank 0, {1}, {1,1}} leaves x {f32,f64} x a chain of 0..2 further "
               "operations x every subset of the values, root included, retaining its gradient: the root's own gradient is 1, "
               "retained values hold theirs, the others none, flags stay as set") {
  static const std::vector<Shape> ss = {{}, {1}, {1, 1}};
  const Shape &s = ch.of(ss);
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  int n = 1 + ch.pick(3);
  std::vector<int> os;
  for (int i = 0; i < n; ++i)
    os.push_back(ch.pick(N_OPS));
  ch.shard();
  for (int mask = 0; mask < 1 << n; ++mask) {
    tape.reset();
    std::deque<Pair> v;
    v.push_back(q_new(s, dt, {-2}, true));
    bool ok = true;
    for (int i = 0; i < n && ok; ++i) {
      if (os[i] == 7 || os[i] == 8) // may be the same tensor; never tracks
        ch.prune();
      Pair c = q_new(v.back().m.shape, INNC::f64, {4});
      Pair p = apply_op(ch, os[i], v.back(), c);
      if (tape.ambiguous || p.m.n() != 1) {
        ok = false;
        break;
      }
      if (mask >> i & 1) {
        LOG("retain_grad(true)");
        p.t.retain_grad(true);
      }
      v.push_back(std::move(p));
    }
    if (!ok)
      continue;
    Pair &L = v.back();
    q_backward(L);
    Tol tol(1e-6L, 1e-11L);
    for (size_t i = 0; i < v.size(); ++i) {
      flags(v[i], "flag after backward");
      bool ret = i && (mask >> (i - 1) & 1);
      if (v[i].t.retain_grad() != ret)
        fail("backward changed retain_grad()");
      if (i + 1 == v.size() && ret)
        check_grad(v[i].t, v[i].m.dt, v[i].m.shape, {1}, "retained gradient of the root");
      else if (i == 0 || ret)
        q_check_grad(L, v[i], i ? "retained intermediate" : "leaf");
      else if (has_grad(v[i].t))
        fail(fmt("value %zu kept a gradient nobody asked for", i));
    }
    ch.step(n + 1);
    ch.outcome(hash_u64(h_model(L.m), mask));
  }
}

SPACE("retained later", "chains of two operations (20 x 20) over a leaf in {f32,f64}, both results retaining their gradients, all sequences of up to 3 of {another "
                        "pass from the leaf, zero_grad of the leaf, of the first, of the second result} after the backward pass: "
                        "each gradient changes only by what concerns its own tensor") {
  int o1 = ch.pick(N_OPS), o2 = ch.pick(N_OPS);
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  ch.shard();
  if (o1 == 7 || o1 == 8 || o2 == 7 || o2 == 8) // may be the same tensor; never tracks
    ch.prune();
  static const std::vector<std::vector<int>> seqs = [] {
    std::vector<std::vector<int>> v;
    for (int a = 0; a < 4; ++a) {
      v.push_back({a});
      for (int b = 0; b < 4; ++b) {
        v.push_back({a, b});
        if (is_thorough())
          for (int c = 0; c < 4; ++c)
            v.push_back({a, b, c});
      }
    }
    return v;
  }();
  for (auto &seq : seqs) {
    tape.reset();
    std::deque<Pair> v;
    v.push_back(q_new({2, 2}, dt, {2, -1, 4, 0.5L}, true));
    Pair c = q_new({2, 2}, INNC::f64, {4, -2, 8, -1}), c2;
    v.push_back(apply_op(ch, o1, v[0], c));
    c2 = q_new(v[1].m.shape, INNC::f64, pow2_vals(v[1].m.n(), INNC::f64, 3));
    v.push_back(apply_op(ch, o2, v[1], c2));
    if (tape.ambiguous)
      ch.prune();
    v[1].t.retain_grad(true);
    v[2].t.retain_grad(true);
    Pair L = weighted(v[2], INNC::f64, 0);
    q_backward(L);
    std::vector<std::vector<num>> g;
    for (auto &p : v)
      g.push_back(m_grad(L.m, p.m));
    for (int a : seq) {
      if (a == 0) {
        Pair M = weighted(v[0], INNC::f64, 1);
        q_backward(M);
        auto d = m_grad(M.m, v[0].m);
        for (size_t i = 0; i < d.size(); ++i)
          g[0][i] += d[i];
      } else {
        LOG("zero_grad() of value %d", a - 1);
        v[a - 1].t.zero_grad();
        std::fill(g[a - 1].begin(), g[a - 1].end(), 0);
      }
      Tol tol(1e-6L, 1e-11L);
      for (size_t i = 0; i < v.size(); ++i)
        check_grad(v[i].t, v[i].m.dt, v[i].m.shape, g[i], fmt("gradient of value %zu (%s, then %s)", i, opn[o1], opn[o2]).c_str());
      ch.step();
    }
  }
  ch.outcome(o1 * N_OPS + o2);
}

SPACE("retained sizes", "20 operations x every shape of rank 1..3 over {1,2,3}, the wide shapes and line extents (up to 130 elements) x {f32,f64}: the retained "
                        "gradient of the result is exactly what flows into it, also when the result is used twice") {
  static const auto ss = [] {
    auto v = shapes(1, 3, {1, 2, 3});
    for (auto &s : wide_shapes())
      if (numel(s) <= 130)
        v.push_back(s);
    for (int n : line_sizes())
      if (n > 3 && n <= 130)
        v.push_back({n});
    return v;
  }();
  const Shape &s = ch.of(ss);
  int o = ch.pick(N_OPS);
  ch.shard();
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  if (o == 7 || o == 8 || numel(s) == 0)
    ch.prune();
  int n = numel(s);
  Pair x = q_new(s, dt, pow2_vals(n, dt, 1)), c = q_new(s, INNC::f64, pow2_vals(n, INNC::f64, 2));
  // only the library tracks: the gradient of the result is known without a model
  LOG("requires_grad(true)");
  x.t.requires_grad(true);
  Pair r = apply_op(ch, o, x, c);
  r.t.retain_grad(true);
  auto w1 = weights(r.m.n(), 1), w2 = weights(r.m.n(), 4);
  LOG("(%s * w1).sum() + (* w2).sum()", opn[o]);
  Tensor L = (r.t * r_new(r.m.shape, INNC::f64, w1)).sum() + (r_new(r.m.shape, INNC::f64, w2) * r.t).sum();
  L.backward();
  for (size_t i = 0; i < w1.size(); ++i)
    w1[i] += w2[i];
  check_grad(r.t, r.m.dt, r.m.shape, w1, fmt("retained gradient of the result of %s", opn[o]).c_str());
  if (!has_grad(x.t))
    fail("the leaf got no gradient");
  check(r, "retained result after backward");
  ch.step(2);
  ch.state(hash_u64(h_layout(x.m), o));
  ch.outcome(hash_u64(h_layout(r.m), o));
}
SPACE("parts", "cat of 1..5 parts along each dimension of {2}, {1,2}, {2,1,2}, every subset of the parts requiring grad, parts of {f32, f64, i16 (constant)} by "
               "position, one part empty or none: the result tracks exactly if a part does, each such part gets its slice") {
  static const std::vector<Shape> ss = {{2}, {1, 2}, {2, 1, 2}};
  const Shape &s = ch.of(ss);
  int n = 1 + ch.pick(5), dim = ch.pick(static_cast<int>(s.size()));
  int mask = ch.pick(1 << n), empty = ch.pick(n + 1) - 1, rot = ch.pick(3);
  ch.shard();
  static const types ts[3] = {INNC::f32, INNC::f64, INNC::i16};
  std::vector<Tensor> parts;
  std::vector<Shape> shp;
  bool any = false;
  for (int i = 0; i < n; ++i) {
    types dt = ts[(i + rot) % 3];
    bool rg = mask >> i & 1;
    if (rg && !isf(dt))
      dt = INNC::f64;
    Shape p = s;
    p[dim] = i == empty ? 0 : 1 + i % 2;
    shp.push_back(p);
    parts.push_back(r_new(p, dt, iota_vals(numel(p), dt, i)));
    if (rg)
      parts.back().requires_grad(true);
    any |= rg;
  }
  LOG("cat of %d parts %s along %d, mask %d, empty %d", n, sstr(s).c_str(), dim, mask, empty);
  Tensor r = Tensor::cat(parts, dim);
  if (r.requires_grad() != any)
    fail(fmt("cat: requires_grad() is %d, expected %d", r.requires_grad(), any));
  Shape rs;
  for (auto x : r.size())
    rs.push_back(static_cast<int>(x));
  if (any && numel(rs)) {
    auto w = weights(numel(rs), 0);
    Tensor wt = r_new(rs, INNC::f64, w);
    Tensor L = (r * wt).sum();
    L.backward();
    int off = 0, outer = 1, inner = 1;
    for (int d = 0; d < dim; ++d)
      outer *= rs[d];
    for (size_t d = dim + 1; d < rs.size(); ++d)
      inner *= rs[d];
    for (int i = 0; i < n; ++i) {
      int e = shp[i][dim];
      std::vector<num> g;
      for (int a = 0; a < outer; ++a)
        for (int b = 0; b < e; ++b)
          for (int c = 0; c < inner; ++c)
            g.push_back(w[(a * rs[dim] + off + b) * inner + c]);
      off += e;
      bool rg = mask >> i & 1;
      if (parts[i].requires_grad() != rg)
        fail("the flag of a part changed");
      if (numel(shp[i]) == 0)
        continue;
      check_grad(parts[i], parts[i].type(), shp[i], rg ? g : std::vector<num>{}, fmt("part %d", i).c_str());
    }
    if (has_grad(wt))
      fail("a constant got a gradient");
  }
  ch.step(2);
  ch.state(hash_u64(hash_u64(mask * 8 + n, empty + 1), dim * 3 + rot));
  ch.outcome(hash_u64(any, n));
}
SPACE("again", "every operation requested before, while and after an operand requires a gradient (4 requests, either order), results held or dropped, {f32,f64} x 5 layouts x either operand") { again_flags(ch); }
