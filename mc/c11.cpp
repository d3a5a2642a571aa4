// C11: metadata.
#include "ranks.hpp"
#include "views.hpp"
#include "again.hpp"
#include "succ.hpp"
using namespace mc;

static std::vector<ll> row_major(const Shape &s) {
  std::vector<ll> r(s.size());
  ll st = 1;
  for (int d = static_cast<int>(s.size()) - 1; d >= 0; --d) {
    r[d] = st;
    st *= s[d];
  }
  return r;
}
// base: a fresh contiguous tensor or not related; viewed: m.idx are positions in
// the base's storage that the library must address too
static void meta(Chooser &ch, const Pair &p, bool fresh, bool viewed,
                 const char *what) {
  const MT &m = p.m;
  auto sz = p.t.size();
  if (sz.size() != m.shape.size())
    fail(fmt("%s: rank is %zu, expected %zu", what, sz.size(), m.shape.size()));
  std::string want = "[";
  for (size_t d = 0; d < m.shape.size(); ++d) {
    if (sz[d] != static_cast<size_t>(m.shape[d]))
      fail(fmt("%s: size()[%zu] is %zu, expected %d", what, d, sz[d], m.shape[d]));
    want += (d ? ", " : "") + std::to_string(m.shape[d]);
  }
  if (sz.to_string() != want + "]")
    fail(fmt("%s: size() renders as %s", what, sz.to_string().c_str()));
  if (p.t.numel() != static_cast<size_t>(m.n()))
    fail(fmt("%s: numel() is %zu, expected %d", what, p.t.numel(), m.n()));
  if (p.t.dim() != m.shape.size())
    fail(fmt("%s: dim() is %zu, expected %zu", what, p.t.dim(), m.shape.size()));
  if (p.t.type() != m.dt)
    fail(fmt("%s: type() is wrong", what));
  auto st = p.t.stride();
  if (st.size() != m.shape.size())
    fail(fmt("%s: stride() has %zu entries for rank %zu", what, st.size(), m.shape.size()));
  auto rm = row_major(m.shape);
  bool big = true; // every extent at least 2
  for (int e : m.shape)
    big &= e >= 2;
  if (fresh) {
    for (size_t d = 0; d < rm.size(); ++d)
      if (st[d] != rm[d])
        fail(fmt("%s: stride()[%zu] of a fresh tensor is %lld, expected %lld", what, d,
                 st[d], rm[d]));
    if (!p.t.is_contiguous())
      fail(fmt("%s: a fresh tensor is not contiguous", what));
  }
  if (viewed) {
    // element at index c lives stride().c after the first one
    for (int i = 0; i < m.n(); ++i) {
      int f = i;
      ll off = 0;
      for (int d = static_cast<int>(m.shape.size()) - 1; d >= 0; --d) {
        off += st[d] * (f % m.shape[d]);
        f /= m.shape[d];
      }
      if (off != m.idx[i] - m.idx[0])
        fail(fmt("%s: by stride() element %d is at distance %lld of the first, but it "
                 "is storage element %d and the first is %d",
                 what, i, off, m.idx[i], m.idx[0]));
    }
  }
  if (big && (viewed || fresh)) {
    bool c = true;
    for (int i = 1; i < m.n(); ++i)
      c &= m.idx[i] == m.idx[0] + i;
    if (p.t.is_contiguous() != c)
      fail(fmt("%s: is_contiguous() is %d, expected %d", what, p.t.is_contiguous(), c));
  }
  // a tensor reporting contiguous must lie in row-major order
  if (viewed && p.t.is_contiguous())
    for (int i = 1; i < m.n(); ++i)
      if (m.idx[i] != m.idx[0] + i)
        fail(fmt("%s: is_contiguous() but elements are not in row-major order", what));
  Tensor k = p.t.contiguous();
  check(k, m, "contiguous()");
  if (!k.is_contiguous())
    fail(fmt("%s: contiguous() is not contiguous", what));
  Tensor cl = p.t.clone();
  check(cl, m, "clone()");
  if (!cl.is_contiguous())
    fail(fmt("%s: clone() is not contiguous", what));
  auto cs = cl.stride();
  for (size_t d = 0; d < rm.size(); ++d)
    if (m.n() && cs[d] != rm[d])
      fail(fmt("%s: clone() has stride()[%zu] = %lld, expected %lld", what, d, cs[d], rm[d]));
  ch.step(8);
  ch.state(h_layout(m));
  ch.outcome(hash_u64(h_layout(m), p.t.is_contiguous()));
}
SPACE("fresh", "metadata of every factory and operation result: shapes of rank 0..3 over "
               "{0,1,2,3}, wide shapes, line extents x 6 dtypes") {
  static const auto ss = [] {
    auto v = shapes(0, 3, {0, 1, 2, 3});
    for (auto &s : wide_shapes())
      v.push_back(s);
    for (int n : line_sizes())
      v.push_back({n});
    return v;
  }();
  const Shape &s = ch.of(ss);
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  auto v = iota_vals(numel(s), dt, 1);
  Pair a = q_new(s, dt, v);
  meta(ch, a, true, true, "from_blob");
  std::vector<num> z(v.size(), 0), o(v.size(), 1);
  Pair b{Tensor::zeros(sv(s), dt), m_new(s, dt, z)};
  meta(ch, b, true, true, "zeros");
  Pair c{Tensor::ones(sv(s), dt), m_new(s, dt, o)};
  meta(ch, c, true, true, "ones");
  Pair d = q_bin(ADD, a, b);
  meta(ch, d, true, true, "a + b");
  Pair e = q_neg(a);
  meta(ch, e, true, true, "-a");
  Pair f = q_abs(a);
  meta(ch, f, true, true, "abs a");
  Pair g = q_cast(a, ALL_TYPES[(dt + 1) % 6]);
  meta(ch, g, true, true, "cast");
  Pair h = q_sum(a);
  meta(ch, h, true, true, "sum");
}
SPACE("views", "every chain of 2 slices/transposes and all single reshapes from 8 iota "
               "bases: size, numel, dim, stride, is_contiguous, contiguous, clone") {
  static const std::vector<Shape> bases = {{5},    {3, 4},    {4, 3},       {2, 3, 2},
                                           {1, 4}, {2, 2, 2}, {2, 2, 2, 2}, {4, 1, 3}};
  const Shape &b = ch.of(bases);
  auto o1 = view_ops(b, true);
  const VOp &x = ch.of(o1);
  ch.shard();
  types dt = ALL_TYPES[(b.size() + b[0]) % 6];
  Pair a = q_new(b, dt, iota_vals(numel(b), dt, 1));
  Pair p = apply(a, x);
  meta(ch, p, false, p.m.n() > 0, "view");
  if (x.kind == 2)
    meta(ch, p, true, true, "reshape of a contiguous tensor");
  for (auto &y : view_ops(p.m.shape, true)) {
    Pair q = apply(p, y);
    // a reshape may have moved the elements to storage of their own
    meta(ch, q, false, y.kind != 2 && q.m.n() > 0, ("view of a view " + y.str()).c_str());
    if (y.kind != 2 && y.kind != 1)
      continue;
    for (auto &w : view_ops(q.m.shape, false)) {
      Pair r = apply(q, w);
      meta(ch, r, false, y.kind != 2 && w.kind != 2 && r.m.n() > 0,
           ("view chain " + y.str() + w.str()).c_str());
    }
  }
}
SPACE("gallery", "metadata of 14 layouts x shapes of rank 0..3 over {0,1,2,3} and wide "
                 "shapes x 6 dtypes; queries change nothing") {
  static const auto ss = [] {
    auto v = shapes(0, 3, {0, 1, 2, 3});
    for (auto &s : wide_shapes())
      v.push_back(s);
    return v;
  }();
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  types dt = ch.of(ALL_TYPES);
  Pair a = make_layout(k, s, dt, iota_vals(numel(s), dt, 1));
  bool viewed = k != 10 && k != 12 && numel(s) > 0;
  meta(ch, a, k == 0 || k == 12, viewed, layout_name(k));
  check(a, "after metadata queries");
}
SPACE("grad metadata", "a gradient has its tensor's size, type and rank for 14 layouts x 9 "
                       "shapes x 2 dtypes, and contiguous()/clone() keep requires_grad") {
  static const std::vector<Shape> ss = {{}, {1}, {4}, {2, 3}, {3, 1}, {2, 2, 2}, {1, 3, 2}, {2, 1, 2, 2}, {17}};
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  types dt = ch.flip() ? INNC::f32 : INNC::f64;
  tape.reset();
  Pair a = make_layout(k, s, dt, iota_vals(numel(s), dt, 1));
  a.t.requires_grad(true);
  m_require(a.m);
  Pair c = q_contiguous(a), d = q_clone(a);
  check_flag(c.t, c.m, "contiguous()");
  check_flag(d.t, d.m, "clone()");
  Pair e = q_bin(MUL, c, d), l = q_sum(e);
  l.t.backward();
  Tensor g = a.t.grad();
  if (g.type() != dt || g.dim() != s.size() || g.numel() != a.t.numel() ||
      static_cast<const std::vector<size_t> &>(g.size()) !=
          static_cast<const std::vector<size_t> &>(a.t.size()))
    fail("the gradient's size or type differs from the tensor's");
  q_check_grad(l, a, "gradient");
  if (g.requires_grad())
    fail("a gradient requires grad");
  ch.step(4);
  ch.state(h_layout(a.m));
}

SUCCESSIONS(11)
AGAIN(11)

HIGH_RANKS(11)
