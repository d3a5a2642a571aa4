// The alphabet of view operations, shared by several properties.
#pragma once
#include "model.hpp"
namespace mc {
struct VOp {
  int kind; // 0 slice, 1 transpose, 2 reshape
  std::vector<Sl> sls;
  int a = 0, b = 0;
  Shape to;
  std::string str() const {
    if (kind == 0)
      return "[\"" + slstr(sls) + "\"]";
    if (kind == 1)
      return fmt(".transpose(%d,%d)", a, b);
    return ".reshape(" + sstr(to) + ")";
  }
};
// all factorisations of n with rank <= r (extent 1 allowed once per position)
inline void factor(int n, int r, Shape cur, std::vector<Shape> &out, int maxr) {
  if (n == 1)
    out.push_back(cur);
  if (static_cast<int>(cur.size()) == maxr)
    return;
  for (int f = 1; f <= n; ++f)
    if (n % f == 0) {
      if (f == 1 && std::count(cur.begin(), cur.end(), 1) >= 1)
        continue;
      Shape c = cur;
      c.push_back(f);
      factor(n / f, r, c, out, maxr);
    }
}
inline std::vector<VOp> view_ops(const Shape &s, bool rich, int maxr = 3) {
  std::vector<VOp> v;
  for (int d = 0; d < static_cast<int>(s.size()); ++d) {
    std::vector<Sl> f = {sl({}, {}, -1), sl(1), sl({}, -1), sl({}, {}, 2)};
    if (s[d] > 0) {
      f.push_back(sl_i(0));
      if (s[d] > 1)
        f.push_back(sl_i(-1));
    }
    if (rich) {
      f.push_back(sl({}, {}, -2));
      f.push_back(sl(1, {}, 2));
      f.push_back(sl(1, 2));
      f.push_back(sl(-2, {}, -1));
      f.push_back(sl(0, 0));
      if (s[d] > 2)
        f.push_back(sl_i(1));
    }
    for (auto &x : f) {
      VOp o{0};
      o.sls.assign(d, sl());
      o.sls.push_back(x);
      v.push_back(o);
    }
  }
  if (rich && s.size() >= 2) {
    VOp o{0};
    o.sls.assign(s.size(), sl({}, {}, -1));
    v.push_back(o);
    o.sls = {sl(1), sl({}, {}, 2)};
    v.push_back(o);
  }
  for (int a = 0; a < static_cast<int>(s.size()); ++a)
    for (int b = a + 1; b < static_cast<int>(s.size()); ++b) {
      VOp o{1};
      o.a = rich ? b : a;
      o.b = rich ? a : b;
      v.push_back(o);
    }
  std::vector<Shape> f;
  if (numel(s) > 0)
    factor(numel(s), 0, {}, f, maxr);
  else
    f = {{0}, {0, 2}, {3, 0}};
  for (auto &x : f)
    if (x != s) {
      VOp o{2};
      o.to = x;
      v.push_back(o);
    }
  return v;
}
inline Pair apply(Pair &p, const VOp &o) {
  if (o.kind == 0)
    return q_slice(p, o.sls);
  if (o.kind == 1)
    return q_transpose(p, o.a, o.b);
  return q_reshape(p, o.to);
}
inline bool model_contiguous(const MT &m) {
  for (int i = 1; i < m.n(); ++i)
    if (m.idx[i] != m.idx[0] + i)
      return false;
  return true;
}
} // namespace mc
