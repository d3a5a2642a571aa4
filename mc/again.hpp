// The same request again after the elements changed.
//
// An operation's result depends on the elements its operands hold now, not on
// what an earlier, equal request found: request, change the operand's elements
// in place through one of its aliases (or change the earlier result), request
// again, change back, request a third time.
#pragma once
#include "grads.hpp"
namespace mc {
struct AOp {
  int fam;
  bool shares; // the result refers to the operand's elements
  const char *name;
  Pair (*run)(Pair &a, Pair &b);
};
inline const std::vector<AOp> &again_ops() {
  static const std::vector<AOp> v = {
      {2, false, "a+b", [](Pair &a, Pair &b) { return q_bin(ADD, a, b); }},
      {2, false, "b-a", [](Pair &a, Pair &b) { return q_bin(SUB, b, a); }},
      {2, false, "a*b", [](Pair &a, Pair &b) { return q_bin(MUL, a, b); }},
      {2, false, "b/a", [](Pair &a, Pair &b) { return q_bin(DIV, b, a); }},
      {2, false, "a*a", [](Pair &a, Pair &) { return q_bin(MUL, a, a); }},
      {2, false, "-a", [](Pair &a, Pair &) { return q_neg(a); }},
      {2, false, "abs", [](Pair &a, Pair &) { return q_abs(a); }},
      {3, false, "a<b", [](Pair &a, Pair &b) { return Pair{r_cmp(LT, a.t, b.t), m_cmp(LT, a.m, b.m)}; }},
      {3, false, "b<=a", [](Pair &a, Pair &b) { return Pair{r_cmp(LE, b.t, a.t), m_cmp(LE, b.m, a.m)}; }},
      {3, false, "a==b", [](Pair &a, Pair &b) { return Pair{r_cmp(EQ, a.t, b.t), m_cmp(EQ, a.m, b.m)}; }},
      {3, false, "all",
       [](Pair &a, Pair &) {
         num w = 1;
         for (int i = 0; i < a.m.n(); ++i)
           w = a.m.at(i) == 0 ? 0 : w;
         return Pair{Tensor(std::int8_t(a.t.all())), m_new({}, INNC::i8, {w})};
       }},
      {5, true, "row", [](Pair &a, Pair &) { return q_slice(a, {sl_i(1)}); }},
      {5, true, "reversed", [](Pair &a, Pair &) { return q_slice(a, {sl({}, {}, -1)}); }},
      {6, true, "transpose", [](Pair &a, Pair &) { return q_transpose(a, 0, 1); }},
      {6, true, "reshape", [](Pair &a, Pair &) { return q_reshape(a, {a.m.n()}); }},
      {7, true, "detach", [](Pair &a, Pair &) { return q_detach(a); }},
      {7, false, "clone", [](Pair &a, Pair &) { return q_clone(a); }},
      {8, false, "sum", [](Pair &a, Pair &) { return q_sum(a); }},
      {8, false, "mean", [](Pair &a, Pair &) { return q_mean(a); }},
      {8, false, "max", [](Pair &a, Pair &) { return q_max(a); }},
      {8, false, "min", [](Pair &a, Pair &) { return q_min(a); }},
      {9, false, "cast to another", [](Pair &a, Pair &) { return q_cast(a, a.m.dt == INNC::f64 ? INNC::f32 : INNC::f64); }},
      {9, false, "cast to i64", [](Pair &a, Pair &) { return q_cast(a, a.m.dt == INNC::i64 ? INNC::i16 : INNC::i64); }},
      {10, false, "cat(a,b)", [](Pair &a, Pair &b) { return q_cat({&a, &b}, 0); }},
      {10, false, "cat(b,a,a)", [](Pair &a, Pair &b) { return q_cat({&b, &a, &a}, 1); }},
      {11, false, "contiguous", [](Pair &a, Pair &) { return q_contiguous(a); }},
  };
  return v;
}
// the model's side of p += c, element by element
inline void again_add(Pair &p, num c) {
  LOG("alias += %.3Lg", c);
  p.t += r_new({}, p.m.dt, {c});
  for (int i : p.m.idx)
    p.m.buf->v[i] += c;
}
inline void again(Chooser &ch, int fam) {
  std::vector<const AOp *> own;
  for (auto &o : again_ops())
    if (o.fam == fam || fam == 17)
      own.push_back(&o);
  const AOp &o = *ch.of(own);
  types dt = ch.of(ALL_TYPES);
  static const std::vector<int> ks = {0, 1, 3, 4, 5, 6};
  int k = ch.of(ks);
  ch.shard();
  int how = ch.pick(7), held = ch.pick(2), between = ch.pick(2);
  std::vector<num> v = {1, 2, -3, 4, 5, -6};
  Pair a = make_layout(k, {2, 3}, dt, v);
  Pair b = q_new({2, 3}, dt, {1, -2, -3, 8, 2, 4});
  Pair al = how == 0   ? q_handle(a)
            : how == 1 ? q_detach(a)
            : how == 2 ? q_slice(a, {sl_i(1)})
            : how == 3 ? q_slice(a, {sl(), sl_i(-1)})
            : how == 4 ? q_transpose(a, 0, 1)
            : how == 5 ? q_slice(a, {sl({}, {}, -1), sl({}, {}, 2)})
                       : q_handle(b); // the other operand changes
  if (how == 6 && held && between)
    ch.prune();
  LOG("%s of %s", o.name, layout_name(k));
  auto request = [&](const char *what) {
    Pair r = o.run(a, b);
    check(r, what);
    check(a, "operand");
    ch.step();
    ch.outcome(h_model(r.m));
    return r;
  };
  // whether these share with a non-contiguous (contiguous) operand is left open
  bool open = (std::string(o.name) == "reshape" && k != 0 && k != 1) || std::string(o.name) == "contiguous";
  Pair r1 = request("first result");
  if (!held)
    r1 = Pair{};
  if (between && !o.shares && held && !open) { // the result is changed, not the operand
    again_add(r1, 1);
    check(a, "operand after its result was changed");
    Pair r = request("second result after the first was changed");
    check(r1, "first result");
  } else if (between) { // another request in between
    Pair x = q_bin(ADD, b, b);
    check(x, "b + b");
  }
  again_add(al, 7);
  Pair r2 = request("result after the elements changed");
  if (held && !open)
    check(r1, "first result after the operand changed");
  again_add(al, -7);
  Pair r3 = request("result after the elements changed back");
  if (!open)
    check(r2, "second result");
  again_add(a, -1); // makes a zero
  if (std::string(o.name) != "b/a") {
    Pair r4 = request("result with a zero element");
  }
  ch.state(hash_u64(h_model(a.m), hash_u64(how * 4 + held * 2 + between, static_cast<uint64_t>(&o - &again_ops()[0]))));
}
inline bool again_diff(const AOp &o) {
  return o.fam != 3 && std::string(o.name) != "detach" && std::string(o.name) != "cast to i64";
}
// training-like: gradient, elements changed through a detached alias, gradient
// of the same expression again
inline void again_grad(Chooser &ch) {
  std::vector<const AOp *> own;
  for (auto &o : again_ops())
    if (again_diff(o))
      own.push_back(&o);
  const AOp &o = *ch.of(own);
  types dt = ch.flip() ? INNC::f64 : INNC::f32, db = ch.flip() ? INNC::f64 : INNC::f32;
  static const std::vector<int> ks = {0, 1, 3, 5, 6};
  int k = ch.of(ks);
  ch.shard();
  int role = 1 + ch.pick(2), how = ch.pick(4), held = ch.pick(2), zero = ch.pick(2);
  tape.reset();
  Pair leaf = make_layout(k, {2, 3}, dt, {1, 2, -4, 8, 0.5L, -0.25L});
  q_require(leaf);
  Pair b = q_new({2, 3}, db, {1, -2, -8, 4, 2, 0.5L}, true);
  LOG("gradient of %s, again", o.name);
  std::vector<num> ga(leaf.m.n(), 0), gb(6, 0);
  std::vector<Pair> keep;
  Tol tol(1e-5L, 1e-12L);
  auto pass = [&](const char *what) {
    Pair v; // the leaf itself or a view taken anew
    if (role == 2)
      v = q_slice(leaf, {sl({}, {}, -1)});
    Pair r = o.run(role == 2 ? v : leaf, b);
    Pair L = weighted(r, INNC::f64, 1);
    q_backward(L);
    auto da = m_grad(L.m, leaf.m), d2 = m_grad(L.m, b.m);
    for (size_t i = 0; i < da.size(); ++i)
      ga[i] += da[i];
    for (size_t i = 0; i < d2.size(); ++i)
      gb[i] += d2[i];
    auto some = [](const std::vector<num> &g) {
      for (num q : g)
        if (q != 0)
          return true;
      return false;
    };
    if (some(ga) || has_grad(leaf.t))
      check_grad(leaf.t, leaf.m.dt, leaf.m.shape, ga, what);
    if (some(gb) || has_grad(b.t))
      check_grad(b.t, b.m.dt, b.m.shape, gb, what);
    check(leaf, "leaf");
    if (held) {
      keep.push_back(std::move(r));
      keep.push_back(std::move(L));
    }
    ch.step(3);
  };
  pass("gradient");
  for (int n = 0; n < 2; ++n) {
    if (zero) {
      leaf.t.zero_grad();
      b.t.zero_grad();
      std::fill(ga.begin(), ga.end(), 0);
      std::fill(gb.begin(), gb.end(), 0);
    }
    Pair d = q_detach(how == 3 ? b : leaf);
    Pair al = how == 0 || how == 3 ? std::move(d) : how == 1 ? q_slice(d, {sl_i(0)}) : q_slice(d, {sl({}, {}, -1)});
    again_add(al, n ? -2 : 16);
    pass("gradient after the elements changed");
  }
  ch.state(hash_u64(hash_u64(k * 100 + how * 10 + role, dt * 8 + db), static_cast<uint64_t>(&o - &again_ops()[0]) * 4 + held * 2 + zero));
}
// the same request before, while and after its operand requires a gradient
inline void again_flags(Chooser &ch) {
  const AOp &o = ch.of(again_ops());
  types dt = ch.flip() ? INNC::f64 : INNC::f32;
  static const std::vector<int> ks = {0, 1, 3, 5, 6};
  int k = ch.of(ks);
  ch.shard();
  int held = ch.pick(2), first = ch.pick(2), which = ch.pick(2);
  if (which && std::string(o.name).find('b') == std::string::npos)
    ch.prune();
  if (std::string(o.name) == "cast to i64")
    ch.prune(); // refused while the operand requires grad
  tape.reset();
  Pair a = make_layout(k, {2, 3}, dt, {1, 2, -4, 8, 0.5L, -0.25L});
  Pair b = q_new({2, 3}, dt, {1, -2, -8, 4, 2, 0.5L});
  Pair &x = which && std::string(o.name) != "abs" && std::string(o.name) != "a*a" ? b : a;
  LOG("%s with changing flags", o.name);
  std::vector<Pair> keep;
  for (int n = 0; n < 4; ++n) {
    bool on = (n + first) % 2;
    LOG("requires_grad(%d)", on);
    x.t.requires_grad(on);
    x.m.rg = on;
    if (on)
      m_require(x.m);
    else {
      x.m.seed0 = -1;
      x.m.d.clear();
    }
    Pair r = o.run(a, b);
    check(r, "result");
    bool want = on && again_diff(o);
    if (r.t.requires_grad() != want)
      fail(fmt("%s requires grad: %d, expected %d (request %d)", o.name, r.t.requires_grad(), want, n));
    if (r.t.retain_grad())
      fail("the result retains its gradient");
    if (want) {
      Pair L = weighted(r, INNC::f64, 0);
      q_backward(L);
      Tol tol(1e-5L, 1e-12L);
      auto g = m_grad(L.m, x.m);
      check_grad(x.t, x.m.dt, x.m.shape, g, "gradient");
      x.t.zero_grad();
    }
    if (held)
      keep.push_back(std::move(r));
    ch.step(2);
  }
  ch.state(hash_u64(hash_u64(k * 100 + held * 10 + first, dt), static_cast<uint64_t>(&o - &again_ops()[0]) * 2 + which));
}
#define AGAIN(fam)                                                                                                                        \
  SPACE("again", "the same request three times with the elements of an operand changed in between through a handle, a detached handle, " \
                 "a row, a column, a transpose, a strided view or the partner, or the earlier result changed: every operation of this "  \
                 "property x 6 dtypes x 6 layouts x first result held or dropped") {                                                     \
    again(ch, fam);                                                                                                                      \
  }
} // namespace mc
