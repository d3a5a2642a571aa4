// Shared pieces of the gradient spaces.
#pragma once
#include "model.hpp"
namespace mc {
// distinct dyadic weights, no two alike for small n, exact in f32
inline std::vector<num> weights(int n, int salt = 0) {
  std::vector<num> v;
  for (int i = 0; i < n; ++i)
    v.push_back((i % 2 ? -1 : 1) * (1 + ((i * 5 + salt) % 23)) / 2.0L);
  return v;
}
// values whose quotients and products stay exact: +-2^k
inline std::vector<num> pow2_vals(int n, types dt, int salt = 0) {
  std::vector<num> v;
  for (int i = 0; i < n; ++i) {
    num x = std::pow(2.0L, (i * 3 + salt) % 4 + (isf(dt) ? -1 : 0));
    v.push_back((i + salt) % 3 == 1 ? -x : x);
  }
  return v;
}
// scalar loss giving every element of r its own upstream gradient
inline Pair weighted(const Pair &r, types wdt, int how) {
  Pair w = q_new(r.m.shape, wdt, weights(r.m.n(), how));
  Pair p = how % 2 ? q_bin(MUL, w, r) : q_bin(MUL, r, w);
  return how / 2 ? q_mean(p) : q_sum(p);
}
inline void q_backward(const Pair &root) {
  LOG("backward()");
  const_cast<Tensor &>(root.t).backward();
}
// an operand in one of three roles: 0 constant, 1 leaf with this layout,
// 2 view of a leaf that requires grad
struct Operand {
  Pair base, v;
  int role = 0;
};
inline Operand operand(int role, int k, const Shape &s, types dt,
                       const std::vector<num> &vals) {
  Operand o;
  o.role = role;
  if (role == 2) {
    o.v = make_layout_rg(k == 9 ? 6 : k, s, dt, vals, o.base);
  } else {
    o.v = make_layout(k, s, dt, vals);
    if (role == 1)
      q_require(o.v);
    else
      LOG("constant %s", sstr(s).c_str());
  }
  return o;
}
inline void check_operand(const Pair &root, const Operand &o, const char *what) {
  if (o.role == 2) {
    q_check_grad(root, o.base, what);
    check(o.base, "base after backward");
  } else
    q_check_grad(root, o.v, what);
  check(o.v, "operand after backward");
}
} // namespace mc
