// C10: concatenation.
#include "ranks.hpp"
#include "model.hpp"
#include <list>
#include "again.hpp"
#include "succ.hpp"
using namespace mc;
static void run_cat(Chooser &ch, std::list<Pair> &ps, int dim) {
  std::vector<Pair *> v;
  for (auto &p : ps)
    v.push_back(&p);
  Pair r = q_cat(v, dim);
  check(r, "cat");
  if (!r.t.is_contiguous())
    fail("the result of cat is not contiguous");
  uint64_t h = dim;
  for (auto &p : ps) {
    check(p, "argument of cat");
    h = hash_u64(h, h_model(p.m));
  }
  ch.step();
  ch.state(h);
  ch.outcome(h_model(r.m));
}
SPACE("shapes", "1..3 tensors of every shape of rank 1..3 over {1,2,3}, every dimension, "
                "extents along it 0..3 each, dtypes by position") {
  static const auto ss = shapes(1, 3, {1, 2, 3});
  const Shape &s = ch.of(ss);
  int dim = ch.pick(static_cast<int>(s.size()));
  ch.shard();
  if (s[dim] != 1)
    ch.prune(); // the extent along dim is chosen per tensor below
  int n = 1 + ch.pick(3);
  std::list<Pair> ps;
  for (int i = 0; i < n; ++i) {
    Shape t = s;
    t[dim] = ch.pick(4);
    types dt = ALL_TYPES[(i * 2 + s.size() + t[dim]) % 6];
    ps.push_back(q_new(t, dt, iota_vals(numel(t), dt, i * 5)));
  }
  run_cat(ch, ps, dim);
}
SPACE("layouts", "pairs of tensors in all 14x14 layouts, 5 shapes, every dimension, 36 "
                 "dtype pairs") {
  static const std::vector<Shape> ss = {{3}, {2, 3}, {3, 1}, {2, 3, 2}, {2, 1, 2}};
  const Shape &s = ch.of(ss);
  int la = ch.pick(N_LAYOUTS), lb = ch.pick(N_LAYOUTS);
  if (!layout_ok(la, s) || !layout_ok(lb, s))
    ch.prune();
  ch.shard();
  types ta = ch.of(ALL_TYPES), tb = ch.of(ALL_TYPES);
  for (size_t d = 0; d < s.size(); ++d) {
    Shape t = s;
    t[d] += 1;
    std::list<Pair> ps;
    ps.push_back(make_layout(la, s, ta, iota_vals(numel(s), ta, 1)));
    ps.push_back(make_layout(lb, t, tb, iota_vals(numel(t), tb, 9)));
    run_cat(ch, ps, static_cast<int>(d));
  }
}
SPACE("dtypes", "three tensors, 216 dtype triples: the result has the widest type and every "
                "value is converted to it, including 2^24+1 and 2^53+1") {
  types a = ch.of(ALL_TYPES), b = ch.of(ALL_TYPES);
  ch.shard();
  types c = ch.of(ALL_TYPES);
  for (int dim = 0; dim < 2; ++dim) {
    std::list<Pair> ps;
    int i = 0;
    for (types t : {a, b, c}) {
      auto e = edge_vals(t);
      std::vector<num> v;
      for (int k = 0; k < 6; ++k)
        v.push_back(e[(k + i) % e.size()]);
      ps.push_back(q_new({2, 3}, t, v));
      ++i;
    }
    run_cat(ch, ps, dim);
  }
}
SPACE("many", "1..12, 16, 17, 33, 64, 127..129, 255..257 and 300 tensors along every dimension of {2}, {1,2}, {2,3}, "
              "{2,1,2} with extents cycling 0..3; the same tensor repeated; 6 dtypes") {
  static const std::vector<Shape> ss = {{2}, {1, 2}, {2, 3}, {2, 1, 2}};
  static const std::vector<int> ns = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 33, 64, 127, 128, 129, 255, 256, 257, 300};
  const Shape &s = ch.of(ss);
  int n = ch.of(ns);
  ch.shard();
  types dt = ch.of(ALL_TYPES);
  bool same = ch.flip();
  for (size_t d = 0; d < s.size(); ++d) {
    std::list<Pair> ps;
    for (int i = 0; i < n; ++i) {
      if (same && i) {
        ps.push_back(q_handle(ps.front()));
        continue;
      }
      Shape t = s;
      t[d] = same ? s[d] : i % 4;
      ps.push_back(q_new(t, dt, iota_vals(numel(t), dt, i)));
    }
    run_cat(ch, ps, static_cast<int>(d));
  }
}
SPACE("wide", "two tensors of every wide shape and line extent, every dimension, 6 dtypes") {
  static const auto ss = [] {
    std::vector<Shape> v;
    for (auto &s : wide_shapes())
      v.push_back(s);
    for (int n : line_sizes())
      v.push_back({n});
    return v;
  }();
  const Shape &s = ch.of(ss);
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  for (size_t d = 0; d < s.size(); ++d) {
    std::list<Pair> ps;
    ps.push_back(q_new(s, dt, iota_vals(numel(s), dt, 1)));
    types d2 = ALL_TYPES[(dt + d) % 6];
    Shape t = s;
    t[d] = 2;
    ps.push_back(q_new(t, d2, iota_vals(numel(t), d2, 3)));
    ps.push_back(make_layout(4, s, dt, iota_vals(numel(s), dt, 2)));
    run_cat(ch, ps, static_cast<int>(d));
  }
}
SPACE("nested", "cat of cats and of views of cats, every dimension pair of {2,2}, {2,3,2}; "
                "results own their elements") {
  static const std::vector<Shape> ss = {{2, 2}, {2, 3, 2}, {3, 1}};
  const Shape &s = ch.of(ss);
  int d1 = ch.pick(static_cast<int>(s.size())), d2 = ch.pick(static_cast<int>(s.size()));
  ch.shard();
  types dt = ch.of(ALL_TYPES);
  Pair a = q_new(s, dt, iota_vals(numel(s), dt, 1));
  Pair b = q_new(s, dt, iota_vals(numel(s), dt, 2));
  Pair c = q_cat({&a, &b}, d1), e = q_cat({&c, &c}, d2);
  check(e, "cat of a cat");
  Pair t = q_transpose(c, 0, 1);
  Pair u = q_slice(t, {sl({}, {}, -1)});
  Pair f = q_cat({&u, &t, &u}, d2);
  check(f, "cat of views of a cat");
  LOG("a += 1; c += 1");
  a.t += Tensor::ones({}, dt);
  check(c, "cat after its argument was modified");
  c.t += Tensor::ones({}, dt);
  check(b, "argument after the cat was modified");
  check(e, "cat of a cat after the inner one was modified");
  ch.step(3);
  ch.state(h_model(f.m));
  ch.outcome(h_model(f.m));
}

SPACE("independence", "1..3 parts in 14 layouts x 4 shapes x every dimension x 6 dtypes of the "
                      "first part x same or other dtype of the rest: += 1 through each part, "
                      "then through the result, reaches nothing else") {
  static const std::vector<Shape> ss = {{1}, {3}, {2, 3}, {2, 1, 2}};
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  int n = 1 + ch.pick(3);
  ch.shard();
  types dt = ch.of(ALL_TYPES);
  int other = n > 1 ? ch.pick(3) : 0; // same dtype, another one, an empty part
  int dim = ch.pick(static_cast<int>(s.size()));
  std::vector<Pair> ps;
  ps.reserve(n);
  for (int i = 0; i < n; ++i) {
    types t = i && other == 1 ? ALL_TYPES[(dt + i) % 6] : dt;
    Shape x = s;
    if (i && other == 2)
      x[dim] = 0;
    ps.push_back(make_layout(i ? 0 : k, x, t, iota_vals(numel(x), t, i)));
  }
  std::vector<Pair *> v;
  for (auto &p : ps)
    v.push_back(&p);
  Pair r = q_cat(v, dim);
  check(r, "cat");
  auto bump = [&](Pair &p) {
    p.t += Tensor::ones({}, p.m.dt);
    for (int i = 0; i < p.m.n(); ++i)
      p.m.buf->v[p.m.idx[i]] = convert(p.m.at(i) + 1, p.m.dt);
    for (auto &q : ps)
      check(q, "argument of cat after += 1 elsewhere");
    check(r, "result of cat after += 1 elsewhere");
    ch.step();
  };
  for (int i = 0; i < n; ++i) {
    LOG("part %d += 1", i);
    bump(ps[i]);
  }
  LOG("result += 1");
  bump(r);
  ch.state(hash_u64(h_model(r.m), n * 64 + dim));
  ch.outcome(h_model(r.m));
}

SUCCESSIONS(10)
AGAIN(10)

HIGH_RANKS(10)
