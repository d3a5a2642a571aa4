// C07: what shares elements and what does not; operations leave operands alone.
#include "ranks.hpp"
#include "views.hpp"
#include "again.hpp"
#include "succ.hpp"
using namespace mc;

// one more operation: kinds 0..2 are VOps that share; 3 detach, 4 handle copy
// share; 5.. do not share
static bool shares(int kind) { return kind <= 4; }
static void bump(Pair &p, num by) { // p += by, on both sides
  LOG("  += %.2Lf through a tensor of size %s", by, sstr(p.m.shape).c_str());
  Tensor c = r_new({}, p.m.dt, {by});
  p.t += c;
  for (int i = 0; i < p.m.n(); ++i)
    p.m.buf->v[p.m.idx[i]] = convert(p.m.buf->v[p.m.idx[i]] + by, p.m.dt);
}
struct Step {
  int kind;
  VOp v;
};
static std::vector<Step> steps(const Pair &p) {
  const MT &m = p.m;
  std::vector<Step> r;
  for (auto &o : view_ops(m.shape, false)) {
    if (o.kind == 2 && !(model_contiguous(m) && p.t.is_contiguous()))
      continue; // whether this shares is not specified
    if (o.kind == 2 && numel(m.shape) == 0)
      continue;
    r.push_back({o.kind, o});
  }
  for (int k = 3; k <= 16; ++k)
    r.push_back({k, {}});
  return r;
}
static Pair step(Pair &p, const Step &s) {
  types other = isf(p.m.dt) ? (p.m.dt == INNC::f32 ? INNC::f64 : INNC::f32)
                            : (p.m.dt == INNC::i8 ? INNC::i32 : INNC::f64);
  switch (s.kind) {
  case 3:
    return q_detach(p);
  case 4: {
    LOG("second handle");
    return q_handle(p);
  }
  case 5:
    return q_clone(p);
  case 6:
    return q_neg(p);
  case 7:
    return q_abs(p);
  case 8:
    return q_cast(p, other);
  case 9: {
    Pair z = q_new({}, p.m.dt, {0});
    return q_bin(ADD, p, z);
  }
  case 10: {
    Pair z = q_new({}, p.m.dt, {1});
    return q_bin(MUL, z, p);
  }
  case 11:
    return q_sum(p);
  case 12: {
    if (p.m.shape.empty())
      return q_clone(p);
    return q_cat({&p}, 0);
  }
  case 13: {
    if (p.m.shape.empty())
      return q_clone(p);
    return q_cat({&p, &p}, static_cast<int>(p.m.shape.size()) - 1);
  }
  case 14: {
    if (!p.m.n())
      return q_clone(p);
    return q_max(p);
  }
  case 15: {
    Pair z = q_new({}, p.m.dt, {1});
    return q_bin(DIV, p, z);
  }
  case 16: {
    if (model_contiguous(p.m))
      return q_clone(p);
    return q_contiguous(p);
  }
  default: {
    Pair r = apply(p, s.v);
    return r;
  }
  }
}
SPACE("share or copy", "from 6 bases x 6 dtypes: every derivation of length 1 and 2 over "
                       "views, detach, handle copies, clone, arithmetic, casts, cat, "
                       "reductions; then += through each of the three tensors in turn; "
                       "every tensor compared after every write") {
  static const std::vector<Shape> bases = {{}, {3}, {2, 3}, {2, 2, 2}, {1, 2}, {4}};
  const Shape &b = ch.of(bases);
  types dt = ch.of(ALL_TYPES);
  Pair a = q_new(b, dt, iota_vals(numel(b), dt, 1));
  auto s1 = steps(a);
  const Step &x = ch.of(s1);
  ch.shard();
  Pair p = step(a, x);
  auto s2 = steps(p);
  const Step &y = ch.of(s2);
  Pair r = step(p, y);
  Pair *all[] = {&a, &p, &r};
  const char *nm[] = {"first", "second", "third"};
  auto look = [&](const char *when) {
    for (int i = 0; i < 3; ++i)
      check(*all[i], (std::string(nm[i]) + " tensor " + when).c_str());
  };
  look("before any write");
  // the model shares exactly when the operation is documented to
  int first = ch.pick(3);
  for (int k = 0; k < 3; ++k) {
    int w = (first + k) % 3;
    bump(*all[w], k + 1);
    look((std::string("after += through the ") + nm[w]).c_str());
    ch.step();
  }
  (void)shares;
  ch.step(2);
  ch.state(hash_u64(hash_u64(h_model(a.m), h_model(p.m)), h_model(r.m)));
  ch.outcome(hash_u64(h_model(p.m), h_model(r.m)));
}

SPACE("operands", "every operation on every layout x 10 shapes x 6 dtypes (plus autograd "
                  "and backward for floating ones) leaves operands and their storage "
                  "untouched") {
  static const std::vector<Shape> ss = {{},     {1},    {4},       {2, 3}, {3, 2},
                                        {0, 2}, {1, 3}, {2, 3, 2}, {2, 2, 2}, {17}};
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  types dt = ch.of(ALL_TYPES);
  tape.reset();
  // the whole storage is watched through a base tensor
  int n = numel(s);
  Pair a = make_layout(k, s, dt, iota_vals(n, dt, 1));
  Pair b = make_layout(k, s, dt, iota_vals(n, dt, 2));
  auto still = [&](const char *what) {
    check(a, what);
    check(b, what);
    ch.step();
  };
  for (int op = 0; op < 4; ++op) {
    Tensor r = r_bin(static_cast<Op>(op), a.t, b.t);
    Tensor z = r_bin(static_cast<Op>(op), a.t, a.t);
    still("after arithmetic");
  }
  for (int c = 0; c < 6; ++c) {
    Tensor r = r_cmp(static_cast<Cmp>(c), a.t, b.t);
    still("after a comparison");
  }
  { Tensor r = -a.t; still("after negation"); }
  { Tensor r = a.t.abs(); still("after abs"); }
  { Tensor r = a.t.sum(); still("after sum"); }
  if (n) {
    { Tensor r = a.t.mean(); still("after mean"); }
    { Tensor r = a.t.max(); still("after max"); }
    { Tensor r = a.t.min(); still("after min"); }
  }
  { Tensor r = a.t.clone(); still("after clone"); }
  { Tensor r = a.t.contiguous(); still("after contiguous"); }
  { Tensor r = a.t.detach(); still("after detach"); }
  for (types t : ALL_TYPES) { Tensor r = a.t.type(t); still("after a cast"); }
  for (size_t d = 0; d < s.size(); ++d) {
    Pair *v[] = {&a, &b};
    Pair r = q_cat({v[0], v[1], v[0]}, static_cast<int>(d));
    still("after cat");
  }
  for (auto &o : view_ops(s, true)) { Pair r = apply(a, o); still("after a view"); }
  a.t.all();
  a.t.to_string();
  a.t.is_contiguous();
  still("after queries");
  Tensor::zeros_like(a.t) += a.t;
  still("after being added in place to another tensor");
  if (isf(dt) && n) {
    a.t.requires_grad(true);
    m_require(a.m);
    Pair c = q_bin(MUL, a, b);
    Pair d = q_bin(DIV, c, b);
    Pair e = q_bin(SUB, d, a);
    Pair l = q_sum(c), l2 = q_mean(e);
    Pair tot = q_bin(ADD, l, l2);
    tot.t.backward();
    still("after backward");
    check(c, "product after backward");
    check(d, "quotient after backward");
    check(e, "difference after backward");
    check(tot, "loss after backward");
    a.t.zero_grad();
    still("after zero_grad");
    Tensor g = a.t.grad();
    still("after grad()");
  }
  ch.state(h_model(a.m));
}

SPACE("whole storage", "writes through a view touch exactly the viewed elements: every "
                       "view op chain of length 2 on 4 iota bases, += through the view, "
                       "base compared element by element") {
  static const std::vector<Shape> bases = {{5}, {3, 4}, {2, 3, 2}, {2, 2, 2, 2}};
  const Shape &b = ch.of(bases);
  types dt = ch.of(ALL_TYPES);
  Pair a = q_new(b, dt, iota_vals(numel(b), dt, 1));
  auto o1 = view_ops(b, true);
  const VOp &x = ch.of(o1);
  ch.shard();
  if (x.kind == 2)
    ch.prune();
  Pair p = apply(a, x);
  auto o2 = view_ops(p.m.shape, true);
  for (auto &y : o2) {
    if (y.kind == 2)
      continue;
    Pair r = apply(p, y);
    Pair inc = q_new(r.m.shape, dt, iota_vals(r.m.n(), dt, 7));
    LOG("view += tensor");
    r.t += inc.t;
    for (int i = 0; i < r.m.n(); ++i)
      r.m.buf->v[r.m.idx[i]] = s_bin(ADD, dt, r.m.at(i), dt, inc.m.at(i));
    check(a, "base after += through a view");
    check(p, "outer view after += through an inner view");
    check(r, "view after +=");
    ch.step(2);
    ch.state(h_model(a.m));
    ch.outcome(h_model(r.m));
  }
}

SPACE("neutral operations", "results that equal their operand own their elements all the same: x+0, 0+x, x-0, x*1, 1*x, x/1 with the neutral "
                            "element in every dtype and as {}, {1} or a full tensor; abs of nonnegative values, sum/mean/max/min of "
                            "one element, cat of one part or with an empty one, cast and back, clone; 7 shapes x 6 dtypes x 5 layouts; "
                            "then += through either, with and without gradient tracking") {
  static const std::vector<Shape> ss = {{}, {1}, {1, 1}, {3}, {2, 3}, {1, 3}, {2, 1, 2}};
  static const std::vector<int> ks = {0, 1, 4, 6, 9};
  const Shape &s = ch.of(ss);
  int k = ch.of(ks);
  if (!layout_ok(k, s))
    ch.prune();
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  int o = ch.pick(6 + 8), n = numel(s);
  types nt = o < 6 ? ch.of(ALL_TYPES) : INNC::i8;
  int ns = o < 6 ? ch.pick(3) : 0, first = ch.pick(2);
  tape.reset();
  std::vector<num> v;
  for (int i = 0; i < n; ++i)
    v.push_back(i + 1);
  Pair a = make_layout(k, s, dt, v);
  Pair r = q_handle(a);
  if (o < 6) {
    Shape zs = ns == 0 ? Shape{} : ns == 1 ? Shape{1} : s;
    Pair z = q_new(zs, nt, std::vector<num>(numel(zs), o < 3 ? 0 : 1));
    r = o == 0 ? q_bin(ADD, a, z) : o == 1 ? q_bin(ADD, z, a) : o == 2 ? q_bin(SUB, a, z)
      : o == 3 ? q_bin(MUL, a, z) : o == 4 ? q_bin(MUL, z, a) : q_bin(DIV, a, z);
  } else if (o == 6)
    r = q_abs(a);
  else if (o < 11) {
    if (n != 1)
      ch.prune();
    r = o == 7 ? q_sum(a) : o == 8 ? q_mean(a) : o == 9 ? q_max(a) : q_min(a);
  } else if (o < 13) {
    if (s.empty())
      ch.prune();
    Shape e = s;
    e[0] = 0;
    Pair em = q_new(e, dt, {});
    r = o == 11 ? q_cat({&a}, 0) : q_cat({&a, &em}, 0);
  } else {
    types mid = dt == INNC::f64 ? INNC::i64 : INNC::f64;
    Pair m = q_cast(a, mid);
    r = q_cast(m, dt);
  }
  check(r, "result");
  bump(first ? r : a, 3);
  check(a, "operand after the first write");
  check(r, "result after the first write");
  bump(first ? a : r, 5);
  check(a, "operand after the second write");
  check(r, "result after the second write");
  if (r.t.requires_grad() || a.t.requires_grad())
    fail("a constant computation tracks gradients");
  ch.step(3);
  ch.outcome(hash_u64(h_model(r.m), o));
}

// an initialiser of shape {2,2}
template <typename T> static INNC::TensorInit init22(const std::vector<num> &v) {
  using TI = INNC::TensorInit;
  return TI{TI{static_cast<T>(v[0]), static_cast<T>(v[1])}, TI{static_cast<T>(v[2]), static_cast<T>(v[3])}};
}
static INNC::TensorInit init22(types dt, const std::vector<num> &v) {
  switch (dt) {
  case INNC::i8: return init22<std::int8_t>(v);
  case INNC::i16: return init22<std::int16_t>(v);
  case INNC::i32: return init22<std::int32_t>(v);
  case INNC::i64: return init22<std::int64_t>(v);
  case INNC::f32: return init22<float>(v);
  default: return init22<double>(v);
  }
}
SPACE("rebinding", "a handle assigned twice (copy, move, initialiser of the same or of another dtype, scalar, a view of itself, itself, "
                   "a computed result, an empty tensor) while up to two of {second handle, detach, row, transpose, reversed, reshape} of the old "
                   "tensor are held, 3 origins x 6 dtypes: what is held keeps the old elements, in-place writes afterwards stay apart") {
  types dt = ch.of(ALL_TYPES);
  int org = ch.pick(3), a1 = ch.pick(7);
  ch.shard();
  int a2 = ch.pick(7), f1 = ch.pick(9), f2 = ch.pick(10);
  if (a2 && a2 <= a1)
    ch.prune();
  types other = dt == INNC::i32 ? INNC::f64 : INNC::i32;
  Pair h = q_new({2, 2}, dt, {1, 2, 3, 4});
  if (org == 1)
    h = q_transpose(h, 0, 1);
  else if (org == 2) {
    LOG("from an initialiser");
    h.t = init22(dt, {1, 2, 3, 4});
    check(h, "initialised");
  }
  std::vector<Pair> held;
  auto hold = [&](int k) {
    switch (k) {
    case 0: return;
    case 1: held.push_back(q_handle(h)); return;
    case 2: held.push_back(q_detach(h)); return;
    case 3: held.push_back(q_slice(h, {sl_i(1)})); return;
    case 4: held.push_back(q_transpose(h, 0, 1)); return;
    case 5: held.push_back(q_slice(h, {sl({}, {}, -1), sl_i(0)})); return;
    default:
      if (!model_contiguous(h.m))
        ch.prune();
      held.push_back(q_reshape(h, {4}));
    }
  };
  bool gone = false;
  auto look = [&](const char *what) {
    if (!gone)
      check(h, what);
    for (auto &p : held)
      check(p, what);
    ch.step();
  };
  auto assign = [&](int f, num base) {
    std::vector<num> v = {base, base + 1, base + 2, base + 3};
    gone = false;
    switch (f) {
    case 0: {
      LOG("assigned a tensor that stays");
      Pair o = q_new({2, 2}, dt, v);
      h.t = o.t;
      h.m = o.m;
      held.push_back(std::move(o));
      return;
    }
    case 1: {
      LOG("assigned a temporary");
      Pair o = q_new({2, 2}, dt, v);
      h.t = std::move(o.t);
      h.m = o.m;
      return;
    }
    case 2:
      LOG("assigned an initialiser");
      h.t = init22(dt, v);
      h.m = m_new({2, 2}, dt, v);
      return;
    case 3:
      LOG("assigned an initialiser of another dtype");
      h.t = init22(other, v);
      h.m = m_new({2, 2}, other, v);
      return;
    case 4:
      LOG("assigned a scalar");
      h.t = Tensor(static_cast<double>(base));
      h.m = m_new({}, INNC::f64, {base});
      return;
    case 5: {
      LOG("assigned a row of itself");
      Pair o = q_slice(h, {sl_i(0)});
      h.t = std::move(o.t);
      h.m = o.m;
      return;
    }
    case 6: {
      LOG("assigned itself");
      Tensor &self = h.t;
      h.t = self;
      return;
    }
    case 7: {
      LOG("assigned a result");
      Pair c = q_new({}, h.m.dt, {base}), o = q_bin(ADD, h, c);
      h.t = std::move(o.t);
      h.m = o.m;
      return;
    }
    default:
      LOG("assigned an empty tensor");
      h.t = Tensor();
      gone = true;
      return;
    }
  };
  hold(a1);
  hold(a2);
  assign(f1, 11);
  look("after the assignment");
  if (!gone) {
    bump(h, 3);
    look("after += through the assigned handle");
  }
  if (f2 < 9) {
    if ((gone || h.m.shape.empty()) && f2 >= 5)
      ch.prune();
    assign(f2, 21);
    look("after the second assignment");
    if (!gone) {
      bump(h, 2);
      look("after += through the handle again");
    }
  }
  for (auto &p : held) {
    bump(p, 5);
    look("after += through what was held");
  }
  uint64_t o = 0;
  for (auto &p : held)
    o = hash_u64(o, h_model(p.m));
  ch.state(o);
  ch.outcome(hash_u64(o, gone ? 0 : h_model(h.m)));
}

SUCCESSIONS(7)
AGAIN(7)

HIGH_RANKS(7)
