// C12: the gradient of every single operation.
#include "again.hpp"
#include "ranks.hpp"
#include "grads.hpp"
#include "views.hpp"
#include "succ.hpp"
using namespace mc;

static const std::vector<Shape> &small_shapes() {
  static const auto v = [] {
    auto r = shapes(0, 2, {1, 2, 3});
    for (Shape s : {Shape{2, 2, 2}, {1, 2, 3}, {3, 1, 2}, {2, 3, 1}, {1, 1, 2}, {2, 1, 1, 3}, {2, 1, 2, 1, 2}})
      r.push_back(s);
    return r;
  }();
  return v;
}
struct TP { types a, b; };
// at least one side is floating
static const std::vector<TP> &type_pairs() {
  static const std::vector<TP> v = [] {
    std::vector<TP> r;
    for (types a : ALL_TYPES)
      for (types b : ALL_TYPES)
        if (isf(a) || isf(b))
          r.push_back({a, b});
    return r;
  }();
  return v;
}
static void binary(Chooser &ch, Op op, const Shape &sa, int ka, types ta, int ra,
                   const Shape &sb, int kb, types tb, int rb, int how) {
  tape.reset();
  Operand a = operand(ra, ka, sa, ta, op == DIV ? pow2_vals(numel(sa), ta, 2) : iota_vals(numel(sa), ta, 1));
  Operand b = operand(rb, kb, sb, tb, op == DIV ? pow2_vals(numel(sb), tb, 1) : iota_vals(numel(sb), tb, 5));
  Pair r = q_bin(op, a.v, b.v);
  Pair L = weighted(r, isf(r.m.dt) ? r.m.dt : INNC::f64, how);
  Tol tol(1e-6L, 1e-12L);
  q_backward(L);
  check_operand(L, a, "gradient of the left operand");
  check_operand(L, b, "gradient of the right operand");
  ch.step(4);
  if (a.role)
    ch.state(h_layout(a.v.m));
  if (b.role)
    ch.state(h_layout(b.v.m));
  ch.outcome(hash_u64(h_model(L.m), hash_u64(op, ra * 3 + rb)));
}

SPACE("binary, shapes", "{+,-,*,/} x all broadcastable pairs of shapes (rank 0..2 over {1,2,3} and 7 of "
                        "rank 3..5) x 9 type pairs x which operands need a gradient (as a leaf or "
                        "through a transposed view)") {
  const Shape &sa = ch.of(small_shapes());
  const Shape &sb = ch.of(small_shapes());
  if (!bshape(sa, sb))
    ch.prune();
  ch.shard();
  Op op = static_cast<Op>(ch.pick(4));
  static const std::vector<TP> tps = {{INNC::f32, INNC::f32}, {INNC::f64, INNC::f64}, {INNC::f32, INNC::f64},
                                      {INNC::f64, INNC::f32}, {INNC::i8, INNC::f32},  {INNC::f64, INNC::i16},
                                      {INNC::f32, INNC::i64}, {INNC::i32, INNC::f64}, {INNC::i64, INNC::f32}};
  TP tp = ch.of(tps);
  for (int ra : {0, 1, 2})
    for (int rb : {0, 1, 2}) {
      if ((ra && !isf(tp.a)) || (rb && !isf(tp.b)) || (!ra && !rb))
        continue;
      int ka = ra == 2 && sa.size() >= 2 ? 5 : 0, kb = rb == 2 && sb.size() >= 2 ? 13 : 0;
      binary(ch, op, sa, ka, tp.a, ra, sb, kb, tp.b, rb, (ra + rb) % 2);
    }
}
SPACE("binary, layouts", "{+,-,*,/} x 10 shape pairs x 14 layouts on either or both sides x "
                         "{f32,f64} x roles (constant, leaf with that layout, view of a leaf) x 4 losses") {
  struct SP { Shape a, b; };
  static const std::vector<SP> sps = {{{3}, {3}},       {{2, 3}, {2, 3}}, {{2, 3}, {3}},       {{3}, {2, 3}},
                                      {{2, 1}, {1, 3}}, {{}, {2, 2}},     {{2, 2}, {}},        {{2, 2, 2}, {2, 1, 2}},
                                      {{1, 3}, {2, 3}}, {{2, 1, 2}, {1, 3, 1}}};
  const SP &sp = ch.of(sps);
  int k = ch.pick(N_LAYOUTS), which = ch.pick(3);
  int ka = which != 1 ? k : 0, kb = which != 0 ? k : 0;
  if (!layout_ok(ka, sp.a) || !layout_ok(kb, sp.b))
    ch.prune();
  ch.shard();
  Op op = static_cast<Op>(ch.pick(4));
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  for (int ra : {0, 1, 2})
    for (int rb : {0, 1, 2})
      if (ra || rb)
        for (int how = 0; how < 4; ++how)
          binary(ch, op, sp.a, ka, dt, ra, sp.b, kb, dt, rb, how);
}
SPACE("binary, types", "{+,-,*,/} x all 20 type pairs with a floating side x 5 shape pairs x roles x 4 losses") {
  struct SP { Shape a, b; };
  static const std::vector<SP> sps = {{{2, 2}, {2, 2}}, {{2, 2}, {2}}, {{2}, {3, 2}}, {{2, 1}, {2, 3}}, {{1}, {2}}};
  const SP &sp = ch.of(sps);
  TP tp = ch.of(type_pairs());
  ch.shard();
  Op op = static_cast<Op>(ch.pick(4));
  for (int ra : {0, 1, 2})
    for (int rb : {0, 1, 2}) {
      if ((ra && !isf(tp.a)) || (rb && !isf(tp.b)) || (!ra && !rb))
        continue;
      for (int how = 0; how < 4; ++how)
        binary(ch, op, sp.a, ra == 2 ? 3 : 0, tp.a, ra, sp.b, rb == 2 ? 4 : 0, tp.b, rb, how);
    }
}
SPACE("same operand twice", "t op t, t op view(t), view(t) op t for {+,-,*,/} x 15 shapes x {f32,f64} x leaf layouts") {
  static const auto ss = shapes(0, 2, {1, 2, 3});
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  Op op = static_cast<Op>(ch.pick(4));
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  for (int role : {1, 2})
    for (int form = 0; form < 4; ++form) {
      tape.reset();
      auto vals = op == DIV ? pow2_vals(numel(s), dt, 1) : iota_vals(numel(s), dt, 3);
      Operand a = operand(role, k, s, dt, vals);
      Pair b = q_handle(a.v);
      if (form == 1 || form == 2) {
        if (s.empty())
          continue;
        b = q_slice(a.v, std::vector<Sl>(s.size(), sl({}, {}, -1)));
      }
      if (form == 3) {
        if (s.empty())
          continue;
        b = q_slice(a.v, {sl(0, 1)}); // broadcasts along dim 0
      }
      Pair r = form == 2 ? q_bin(op, b, a.v) : q_bin(op, a.v, b);
      Pair L = weighted(r, dt, form);
      Tol tol(1e-6L, 1e-12L);
      q_backward(L);
      check_operand(L, a, "gradient");
      ch.step(4);
      ch.state(h_layout(a.v.m));
      ch.outcome(h_model(L.m));
    }
}
static const char *unames[] = {"neg", "abs", "clone", "contiguous", "cast f32", "cast f64", "sum", "mean", "max", "min", "unary plus"};
static Pair unary(int u, Pair &a) {
  switch (u) {
  case 0: return q_neg(a);
  case 1: return q_abs(a);
  case 2: return q_clone(a);
  case 3: return q_contiguous(a);
  case 4: case 5: {
    types to = u == 4 ? INNC::f32 : INNC::f64;
    if (to == a.m.dt) { // same type: the tensor itself or a copy, both fine
      Pair r{a.t.type(to), a.m};
      return r;
    }
    return q_cast(a, to);
  }
  case 6: return q_sum(a);
  case 7: return q_mean(a);
  case 8: return q_max(a);
  case 9: return q_min(a);
  default: {
    Pair r{+a.t, a.m};
    return r;
  }
  }
}
SPACE("unary", "neg, abs, clone, contiguous, casts, sum, mean, max, min, unary plus x 22 small and the wide "
               "shapes x 14 layouts x {f32,f64} x {leaf, view of a leaf} x 4 losses x 3 value patterns") {
  static const auto ss = [] {
    auto v = small_shapes();
    for (auto &s : wide_shapes())
      if (numel(s) <= (is_asan() ? 20 : 150))
        v.push_back(s);
    return v;
  }();
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  int u = ch.pick(11);
  if (numel(s) == 0 && u >= 7 && u <= 9)
    ch.prune();
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  // loss and value patterns say nothing about memory
  bool small = numel(s) <= 12 && !(is_asan() && !is_thorough());
  for (int role : {1, 2})
    for (int how = 0; how < (small ? 4 : 1); ++how)
      for (int pat = 0; pat < (small ? 3 : 1); ++pat) {
        tape.reset();
        std::vector<num> v = iota_vals(numel(s), dt, pat);
        if (u == 8 || u == 9) // unique extreme, position depends on pat
          for (int i = 0; i < numel(s); ++i)
            v[i] = (i * 5 + pat * 3) % 151 - 75 + 0.5L;
        Operand a = operand(role, k, s, dt, v);
        LOG("%s", unames[u]);
        Pair r = unary(u, a.v);
        Pair L = weighted(r, how < 2 ? INNC::f64 : r.m.dt, how);
        if (tape.ambiguous)
          continue;
        Tol tol(1e-6L, 1e-12L);
        q_backward(L);
        check_operand(L, a, unames[u]);
        ch.step(3);
        ch.state(hash_u64(h_layout(a.v.m), u));
        ch.outcome(h_model(L.m));
      }
}
SPACE("extremes", "gradient of max/min with the extreme at every position of 8 shapes x 14 layouts x {f32,f64} "
                  "x {all negative, all positive, mixed}") {
  static const std::vector<Shape> ss = {{1}, {2}, {5}, {2, 3}, {3, 3}, {2, 2, 2}, {3, 1, 2}, {}};
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  int n = numel(s);
  for (int pos = 0; pos < n; ++pos)
    for (int kind = 0; kind < 3; ++kind)
      for (int mx = 0; mx < 2; ++mx)
        for (int role : {1, 2}) {
          tape.reset();
          std::vector<num> v;
          for (int i = 0; i < n; ++i)
            v.push_back((kind == 0 ? -50 : kind == 1 ? 50 : 0) + (i % 5) - 2);
          v[pos] = v[pos] + (mx ? 30 : -30);
          Operand a = operand(role, k, s, dt, v);
          Pair r = mx ? q_max(a.v) : q_min(a.v);
          Pair L = weighted(r, dt, 0);
          q_backward(L);
          check_operand(L, a, mx ? "max" : "min");
          ch.step(3);
          ch.outcome(hash_u64(h_model(L.m), pos));
        }
}
SPACE("views", "every view operation (slices, transposes, reshapes) and every pair of them on 9 shapes x 6 leaf "
               "layouts x {f32,f64} x 2 losses") {
  static const std::vector<Shape> ss = {{}, {1}, {4}, {2, 3}, {3, 2}, {1, 3}, {2, 2, 2}, {3, 1, 2}, {2, 1, 2, 2}};
  static const std::vector<int> ks = {0, 2, 3, 4, 5, 6};
  const Shape &s = ch.of(ss);
  int k = ch.of(ks);
  if (!layout_ok(k, s))
    ch.prune();
  types dt = INNC::f32;
  Pair probe = q_new(s, dt, iota_vals(numel(s), dt));
  auto o1 = view_ops(s, true);
  if (o1.empty())
    ch.prune();
  VOp op1 = ch.of(o1);
  ch.shard();
  Pair p1 = apply(probe, op1);
  auto o2 = view_ops(p1.m.shape, is_thorough());
  int depth2 = is_asan() && !is_thorough() ? 0 : ch.pick(static_cast<int>(o2.size()) + 1);
  dt = ch.flip() ? INNC::f64 : INNC::f32;
  for (int how = 0; how < 2; ++how) {
    tape.reset();
    Pair a = make_layout(k, s, dt, iota_vals(numel(s), dt, 1));
    q_require(a);
    Pair v = apply(a, op1);
    if (depth2)
      v = apply(v, o2[depth2 - 1]);
    Pair L = weighted(v, dt, how);
    Tol tol(1e-6L, 1e-12L);
    q_backward(L);
    q_check_grad(L, a, "gradient through the view");
    check(a, "leaf after backward");
    check(v, "view after backward");
    ch.step(3);
    ch.state(h_layout(v.m));
    ch.outcome(h_model(L.m));
  }
}
SPACE("cat", "cat of 1..3 tensors over every dim x rank 1..3 shapes x 7 layouts x all subsets that need a "
             "gradient x {f32,f64,mixed,with integer constants}, and of the same tensor repeated") {
  static const auto ss = [] {
    auto v = shapes(1, 2, {1, 2, 3});
    for (Shape s : {Shape{2, 2, 2}, {1, 2, 1}, {2, 1, 3}})
      v.push_back(s);
    return v;
  }();
  static const std::vector<int> ks = {0, 2, 3, 4, 5, 6, 13};
  const Shape &s = ch.of(ss);
  int dim = ch.pick(static_cast<int>(s.size()));
  int k = ch.of(ks);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  int n = 1 + ch.pick(3);
  int tymode = ch.pick(4);
  for (int roles = 1; roles < std::pow(3, n); ++roles) {
    tape.reset();
    std::vector<Operand> os;
    bool ok = true;
    int rr = roles;
    for (int i = 0; i < n; ++i, rr /= 3) {
      Shape si = s;
      si[dim] = 1 + (s[dim] + i) % 3;
      types dt = tymode == 0 ? INNC::f32 : tymode == 1 ? INNC::f64 : tymode == 2 ? (i % 2 ? INNC::f32 : INNC::f64)
                                                                                  : (i == 1 ? INNC::i16 : INNC::f32);
      if (!isf(dt) && rr % 3) {
        ok = false;
        break;
      }
      os.push_back(operand(rr % 3, i == 1 && layout_ok(0, si) ? 0 : k, si, dt, iota_vals(numel(si), dt, i)));
    }
    if (!ok)
      continue;
    std::vector<Pair *> ps;
    for (auto &o : os)
      ps.push_back(&o.v);
    if (n == 2 && roles == 8 && tymode < 2) // repeated tensor
      ps = {&os[0].v, &os[0].v};
    Pair r = q_cat(ps, dim);
    Pair L = weighted(r, r.m.dt, roles % 2);
    Tol tol(1e-6L, 1e-12L);
    q_backward(L);
    for (auto &o : os)
      check_operand(L, o, "gradient through cat");
    ch.step(3);
    ch.outcome(h_model(L.m));
  }
}
SPACE("cat of many", "gradient through cat of 4..9, 16, 17, 33 and 65 parts along every dimension of {2,2} and {1,2,1}, extents cycling 1..3, every part or "
                     "every other part or one part at each place a leaf, a tensor repeated at two places") {
  static const std::vector<int> ns = {4, 5, 6, 7, 8, 9, 16, 17, 33, 65};
  int n = ch.of(ns);
  static const std::vector<Shape> ss = {{2, 2}, {1, 2, 1}};
  const Shape &s = ch.of(ss);
  int dim = ch.pick(static_cast<int>(s.size()));
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  ch.shard();
  if (is_asan() && n > 17)
    ch.prune();
  for (int which = 0; which < n + 3; ++which) {
    tape.reset();
    std::vector<Operand> os;
    for (int i = 0; i < n; ++i) {
      Shape o = s;
      o[dim] = 1 + i % 3;
      int role = which < n ? i == which : which == n ? 1 : (i + which) % 2;
      types t = i % 4 == 3 && !role ? INNC::i16 : dt;
      os.push_back(operand(role, 0, o, t, iota_vals(numel(o), t, i)));
    }
    std::vector<Pair *> ps;
    for (auto &o : os)
      ps.push_back(&o.v);
    if (which == n) // the same tensor at the front and at the end
      ps.push_back(&os[0].v);
    Pair r = q_cat(ps, dim);
    Pair L = weighted(r, r.m.dt, which % 2);
    Tol tol(1e-6L, 1e-12L);
    q_backward(L);
    for (auto &o : os)
      check_operand(L, o, "gradient through cat");
    ch.step(3);
    ch.outcome(h_model(L.m));
  }
}
// closed forms, so that sizes are not limited by the model's dense derivatives
SPACE("sizes", "every operation on vectors of every extent in the line sizes (0..40 and around powers of two up "
               "to 4096, thorough 300/65536), also reversed and as rows of a matrix; broadcast scalar on either side") {
  int n = ch.of(line_sizes());
  if (n == 0)
    ch.prune();
  ch.shard();
  int u = ch.pick(15);
  int form = ch.pick(3); // 0 plain, 1 reversed view, 2 {n,2} matrix
  Shape s = form == 2 ? Shape{n, 2} : Shape{n};
  int N = numel(s);
  types dt = INNC::f64;
  auto va = iota_vals(N, dt, 1), vb = pow2_vals(N, dt, 1), w = weights(N);
  Tensor a = r_new(s, dt, va), b = r_new(s, dt, vb), W = r_new(s, dt, w);
  a.requires_grad(true);
  b.requires_grad(true);
  Tensor v;
  v = a;
  if (form == 1)
    v = a["::-1"];
  auto at = [&](int i) { return form == 1 ? N - 1 - i : i; }; // v[i] = a[at(i)]
  std::vector<num> ga(N, 0), gb(N, 0);
  bool useb = false;
  Tensor L;
  LOG("%s, operation %d", sstr(s).c_str(), u);
  Tensor sc = r_new({1}, dt, {0.25L});
  switch (u) {
  case 0: L = ((v + b) * W).sum(); useb = true; break;
  case 1: L = ((v - b) * W).sum(); useb = true; break;
  case 2: L = ((v * b) * W).sum(); useb = true; break;
  case 3: L = ((v / b) * W).sum(); useb = true; break;
  case 4: L = ((-v) * W).sum(); break;
  case 5: L = (v.abs() * W).sum(); break;
  case 6: L = (v.clone() * W).sum(); break;
  case 7: L = (v.type(INNC::f32) * W).sum(); break;
  case 8: L = v.sum() * sc; L = L.sum(); break;
  case 9: L = v.mean() * sc; L = L.sum(); break;
  case 10: L = (v * sc).sum(); break;
  case 11: L = (sc - v).sum(); break;
  case 12: { std::vector<Tensor> l; l.emplace_back(); l.back() = v; l.emplace_back(); l.back() = b;
             Tensor c = Tensor::cat(l); std::vector<num> w2 = weights(2 * N, 3); Shape s2 = s; s2[0] *= 2;
             L = (c * r_new(s2, dt, w2)).sum(); useb = true;
             for (int i = 0; i < N; ++i) { ga[at(i)] = w2[i]; gb[i] = w2[N + i]; } break; }
  case 13: L = (v * W).mean(); break;
  default: L = (v.reshape({-1}) * r_new({N}, dt, w)).sum(); break;
  }
  for (int i = 0; i < N; ++i) {
    num x = va[at(i)], y = vb[i], g = w[i];
    num &A = ga[at(i)], &B = gb[i];
    switch (u) {
    case 0: A = g; B = g; break;
    case 1: A = g; B = -g; break;
    case 2: A = g * y; B = g * x; break;
    case 3: A = g / y; B = -g * x / (y * y); break;
    case 4: A = -g; break;
    case 5: A = x < 0 ? -g : g; break;
    case 6: case 7: case 14: A = g; break;
    case 8: A = 0.25L; break;
    case 9: A = 0.25L / N; break;
    case 10: A = 0.25L; break;
    case 11: A = -1; break;
    case 13: A = g / N; break;
    }
  }
  L.backward();
  Tol tol(1e-6L, 1e-12L);
  check_grad(a, dt, s, ga, "gradient of the (left) operand");
  if (useb)
    check_grad(b, dt, s, gb, "gradient of the right operand");
  else if (has_grad(b))
    fail("a tensor that took no part got a gradient");
  ch.step(3);
  ch.outcome(hash_u64(u, N * 4 + form));
}
SPACE("broadcast sizes", "gradient of a broadcast operand accumulates over every repetition: {1},{n,1},{1,n},{} against "
                         "{n,m} for n in the small line sizes, m in {1,2,3,17}, both sides, {+,-,*,/}, {f32,f64}") {
  int n = ch.of(line_sizes());
  if (n == 0 || n > (is_thorough() ? 2000 : is_asan() ? 40 : 300))
    ch.prune();
  ch.shard();
  static const std::vector<int> ms = {1, 2, 3, 17};
  int m = ch.of(ms);
  Op op = static_cast<Op>(ch.pick(4));
  int form = ch.pick(4), side = ch.pick(2);
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  Shape big{n, m}, sm = form == 0 ? Shape{1} : form == 1 ? Shape{n, 1} : form == 2 ? Shape{1, m} : Shape{};
  int NS = numel(sm);
  auto vb = pow2_vals(n * m, dt, 1), vs = pow2_vals(NS, dt, 2), w = weights(n * m);
  Tensor B = r_new(big, dt, vb), S = r_new(sm, dt, vs), W = r_new(big, dt, w);
  B.requires_grad(true);
  S.requires_grad(true);
  LOG("%s %s %s side %d", sstr(big).c_str(), op_str[op], sstr(sm).c_str(), side);
  Tensor L = ((side ? r_bin(op, S, B) : r_bin(op, B, S)) * W).sum();
  L.backward();
  std::vector<num> gB(n * m), gS(NS, 0);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) {
      int f = i * m + j, q = form == 1 ? i : form == 2 ? j : 0;
      num l = side ? vs[q] : vb[f], r = side ? vb[f] : vs[q], g = w[f], dl = 1, dr = 1;
      if (op == SUB) dr = -1;
      if (op == MUL) { dl = r; dr = l; }
      if (op == DIV) { dl = 1 / r; dr = -l / (r * r); }
      (side ? gS[q] : gB[f]) += g * dl;
      (side ? gB[f] : gS[q]) += g * dr;
    }
  Tol tol(1e-5L, 1e-12L);
  check_grad(B, dt, big, gB, "gradient of the full operand");
  check_grad(S, dt, sm, gS, "gradient of the broadcast operand");
  ch.step(4);
  ch.outcome(hash_u64(hash_u64(op, form * 2 + side), n * 100 + m));
}
SPACE("precision", "f64 gradients keep more than f32 precision: operands and weights with 25..53 significant bits, all "
                   "ops, integer and f32 partners; f32 leaf in an f64 expression") {
  Op op = static_cast<Op>(ch.pick(4));
  static const std::vector<types> pt = {INNC::f64, INNC::f32, INNC::i8, INNC::i16, INNC::i32, INNC::i64};
  types tb = ch.of(pt);
  static const std::vector<num> big = {16777217, 4294967297.0L, 1073741825.5L, 123456789.25L, 0.000244140625L, 3};
  num x = ch.of(big);
  ch.shard();
  static const std::vector<num> ys = {3, 5, -7, 8};
  for (num y : ys)
    for (num wv : {1.0L, 16777217.0L, -0.5L})
      for (int side = 0; side < 2; ++side)
        for (int role = 1; role < (isf(tb) ? 4 : 2); ++role) {
          tape.reset();
          Pair a = q_new({2}, INNC::f64, {x, -x}, role & 1), b = q_new({2}, tb, {y, y}, role & 2);
          Pair r = side ? q_bin(op, b, a) : q_bin(op, a, b);
          Pair w = q_new({2}, INNC::f64, {wv, wv * 3});
          Pair L = q_sum(q_bin(MUL, r, w));
          Tol tol(1e-5L, 1e-12L);
          q_backward(L);
          q_check_grad(L, a, "f64 operand");
          q_check_grad(L, b, "partner");
          ch.step(4);
          ch.outcome(h_model(L.m));
        }
}
SPACE("precision, one operand", "f64 gradients through every operation with one operand (18, views and cat included), 1..13 elements, incoming "
                                "gradients with 25..53 significant bits: no f32 rounding, no truncation on the way") {
  int u = ch.pick(18), n = 1 + ch.pick(13);
  static const std::vector<num> ws = {16777217.0L, 1099511627777.0L, 4503599627370497.0L, 1073741825.5L, 0.0625L, 33554433.25L};
  num wv = ch.of(ws);
  ch.shard();
  for (int role : {1, 2})
    for (int k : {0, 4}) {
      Shape s = u == 11 ? Shape{n, 2} : Shape{n};
      tape.reset();
      std::vector<num> v;
      for (int i = 0; i < numel(s); ++i)
        v.push_back((i * 5) % 13 + 0.5L - (u == 9 ? 40 : 0));
      if (!layout_ok(k, s))
        continue;
      Operand a = operand(role, k, s, INNC::f64, v);
      Pair r = u < 11 ? unary(u == 4 ? 5 : u, a.v)
               : u == 11 ? q_transpose(a.v, 0, 1)
               : u == 12 ? q_slice(a.v, {sl({}, {}, -1)})
               : u == 13 ? q_slice(a.v, {sl_i(n / 2)})
               : u == 14 ? q_reshape(a.v, {1, n})
               : u == 15 ? q_cat({&a.v, &a.v}, 0)
               : u == 16 ? q_bin(SUB, a.v, q_new({}, INNC::i8, {3}))
                         : q_bin(ADD, q_new({1}, INNC::i64, {3}), a.v);
      std::vector<num> w;
      for (int i = 0; i < r.m.n(); ++i)
        w.push_back(i % 2 ? -wv : wv);
      Pair L = q_sum(q_bin(MUL, r, q_new(r.m.shape, INNC::f64, w)));
      if (tape.ambiguous)
        continue;
      Tol tol(1e-6L, 1e-14L);
      q_backward(L);
      check_operand(L, a, "f64 gradient");
      ch.step(3);
      ch.outcome(h_model(L.m));
    }
}

// Gradients too small, too large or too fine for six decimals.  The upstream
// gradient is w; what reaches the leaf is known in closed form.
static void rel_check(const Tensor &g, types dt, const Shape &s, const std::vector<num> &want, const char *what) {
  std::vector<num> x;
  for (num v : want)
    x.push_back(convert(v, dt));
  Tensor w = r_new(s, dt, x);
  if (g.type() != dt || g.size() != sv(s))
    fail(fmt("%s: gradient has type %s", what, tname(g.type())));
  num scale = dt == INNC::f32 ? 1e5L : 1e11L; // a few units in the last place
  Tensor e = (g / w - r_new({}, dt, {1})) * r_new({}, dt, {scale});
  for (num v : observe(e).v)
    if (!(std::fabs(v) < 0.5L))
      fail(fmt("%s: gradient is off by %.3Lg of %s; %s", what, v / scale, nstr(x).c_str(), g.to_string().c_str()));
}
SPACE("fine values", "gradients of 18 forms with upstream gradients and operands in {1e-30, -0.1, 1+eps, 1e8+0.12345, -1e25, 3e-35} (all triples) x {f32,f64}, relative "
                     "error of a few units in the last place") {
  static const std::vector<num> vs = {1e-30L, -0.1L, 1.0000002384185791015625L, 100000000.12345L, -1e25L, 3e-35L};
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  num w0 = convert(ch.of(vs), dt), c0 = convert(ch.of(vs), dt);
  ch.shard();
  for (num a0 : vs) {
    a0 = convert(a0, dt);
    for (int form = 0; form < 18; ++form) {
      num want = 0;
      int n = 2;
      Tensor a = r_new({2}, dt, {a0, a0}), c = r_new({2}, dt, {c0, c0}), w = r_new({2}, dt, {w0, w0}), w1 = r_new({}, dt, {w0});
      auto fine = [&](num v) { return std::fabs(v) > (dt == INNC::f32 ? 1e-35L : 1e-300L) && std::fabs(v) < (dt == INNC::f32 ? 1e36L : 1e300L); };
      a.requires_grad(true);
      Tensor L;
      bool ok = true;
      LOG("form %d, a %Lg, c %Lg, upstream %Lg, %s", form, a0, c0, w0, tname(dt));
      switch (form) {
      case 0: L = ((a + c) * w).sum(); want = w0; break;
      case 1: L = ((c + a) * w).sum(); want = w0; break;
      case 2: L = ((a - c) * w).sum(); want = w0; break;
      case 3: L = ((c - a) * w).sum(); want = -w0; break;
      case 4: L = ((a * c) * w).sum(); want = c0 * w0; break;
      case 5: L = ((c * a) * w).sum(); want = c0 * w0; break;
      case 6: L = ((a / c) * w).sum(); want = w0 / c0; break;
      case 7: L = ((c / a) * w).sum(); want = -w0 * c0 / (a0 * a0); ok = fine(a0 * a0) && fine(c0 / a0) && fine(w0 / a0) && fine(w0 * c0) && fine(1 / a0) && fine(1 / (a0 * a0)) && fine(c0 / (a0 * a0)); break;
      case 8: L = (-a * w).sum(); want = -w0; break;
      case 9: L = (a.abs() * w).sum(); want = a0 < 0 ? -w0 : w0; break;
      case 10: L = (a.clone() * w).sum(); want = w0; break;
      case 11: L = (a["::-1"] * w).sum(); want = w0; break;
      case 12: L = (a.reshape({2, 1}).transpose(0, 1) * w).sum(); want = w0; break;
      case 13: L = a.sum() * w1; want = w0; break;
      case 14: L = a.mean() * w1; want = w0 / n; break;
      case 15: L = a.type(INNC::f64).sum() * w1; want = w0; break;
      case 16: {
        std::vector<Tensor> l;
        l.emplace_back();
        l[0] = a;
        l.push_back(c.detach());
        L = (Tensor::cat(l, 0) * w1).sum();
        want = w0;
        break;
      }
      default: L = (a["0"] * w1 + a["1"] * w1).sum(); want = w0; break;
      }
      if (!ok || !fine(want))
        continue;
      L.backward();
      if (!has_grad(a))
        fail("no gradient");
      rel_check(a.grad(), dt, {2}, {want, want}, fmt("form %d", form).c_str());
      ch.step(2);
      ch.state(hash_u64(hash_bytes(form, &a0, 10), hash_u64(hash_bytes(dt, &c0, 10), hash_bytes(1, &w0, 10))));
    }
  }
  ch.outcome(hash_u64(hash_bytes(dt, &c0, 10), hash_bytes(1, &w0, 10)));
}

SUCCESSIONS(12)
SPACE("again", "gradient of every differentiable operation, the leaf or its partner changed in place through a detached handle, row or reversed view, the gradient of the same expression again, twice, with and without zeroing, graphs held or dropped, {f32,f64}x{f32,f64} x 5 leaf layouts x leaf or view") { again_grad(ch); }

HIGH_RANKS(12)
