// C06: views compose.
#include "ranks.hpp"
#include "views.hpp"
#include <deque>
#include <map>
#include <unordered_set>
#include "again.hpp"
#include "succ.hpp"
using namespace mc;

static uint64_t content(const MT &m) {
  uint64_t h = hash_bytes(1, m.shape.data(), m.shape.size() * sizeof(int));
  for (int i = 0; i < m.n(); ++i) {
    double d = static_cast<double>(m.at(i));
    h = hash_bytes(h, &d, 8);
  }
  return h;
}
static void look(Chooser &ch, const Pair &p, const char *what) {
  check(p, what);
  check_flag(p.t, p.m, what);
  ch.outcome(content(p.m));
}

SPACE("chains", "every chain of 3 view operations (slice alphabet of 12 forms per "
                "dimension, all transposes, all reshapes up to rank 3) from 7 bases") {
  static const std::vector<Shape> bases = {{4}, {6}, {2, 3}, {3, 2}, {2, 2, 2}, {1, 3}, {3, 1, 2}};
  const Shape &b = ch.of(bases);
  types dt = ALL_TYPES[(b.size() * 2 + b[0]) % 6];
  Pair a = q_new(b, dt, iota_vals(numel(b), dt, 1));
  auto o1 = view_ops(b, true);
  const VOp &x = ch.of(o1);
  ch.shard();
  Pair p1 = apply(a, x);
  look(ch, p1, "view");
  auto o2 = view_ops(p1.m.shape, true);
  if (o2.empty())
    return;
  const VOp &y = ch.of(o2);
  Pair p2 = apply(p1, y);
  look(ch, p2, "view of a view");
  // all third steps from here
  for (auto &z : view_ops(p2.m.shape, true)) {
    Pair p3 = apply(p2, z);
    look(ch, p3, ("view of a view of a view " + z.str()).c_str());
    ch.step();
    ch.state(content(p3.m));
  }
  ch.step(2);
  check(a, "base after it was viewed");
  look(ch, p1, "first view afterwards");
}

// Explicit-state search: a state is what later views can depend on, namely the
// logical content together with the strides the library reports and whether the
// storage is still the base's.  Each state keeps the operations that reach it.
static void bfs(Chooser &ch, const Shape &b, types dt, int depth, int first) {
  struct Node {
    Pair p;
    std::string path;
    int d;
    bool copied;
  };
  std::unordered_set<uint64_t> seen;
  std::deque<Node> q;
  bool lg = logging;
  logging = false;
  auto key = [&](const Node &n) {
    uint64_t h = content(n.p.m);
    auto st = n.p.t.stride();
    for (auto v : st)
      h = hash_u64(h, static_cast<uint64_t>(v));
    return hash_u64(h, n.copied);
  };
  Node root{q_new(b, dt, iota_vals(numel(b), dt, 1)), "a", 0, false};
  Pair keep = q_handle(root.p);
  seen.insert(key(root));
  q.push_back(std::move(root));
  uint64_t trans = 0;
  while (!q.empty()) {
    Node n = std::move(q.front());
    q.pop_front();
    if (n.d == depth)
      continue;
    auto ops = view_ops(n.p.m.shape, false, 4);
    for (size_t i = 0; i < ops.size(); ++i) {
      if (n.d == 0 && static_cast<int>(i) % 8 != first)
        continue;
      std::string path = n.path + ops[i].str();
      Pair p;
      try {
        p = apply(n.p, ops[i]);
        check(p, path.c_str());
      } catch (std::exception &e) {
        fail(path + " threw: " + e.what());
      }
      ++trans;
      Node m{std::move(p), path, n.d + 1,
             n.copied || (ops[i].kind == 2 && !model_contiguous(n.p.m))};
      if (seen.insert(key(m)).second)
        q.push_back(std::move(m));
    }
  }
  check(keep, "base after the search");
  logging = lg;
  LOG("breadth-first search from %s %s: %zu states, %lu transitions",
      sstr(b).c_str(), tname(dt), seen.size(), (unsigned long)trans);
  ch.step(trans);
  for (uint64_t h : seen)
    ch.state(hash_u64(h, dt));
}
SPACE("reachable views", "breadth-first search over all views reachable from bases {12}, "
                         "{4,3}, {2,6}, {2,3,2}, {8}, {2,2,2}, {3,3}, {2,2,2,2} within 4 "
                         "(thorough 6) operations, deduplicated by content, strides and "
                         "storage identity") {
  static const std::vector<Shape> bases = {{12}, {4, 3}, {2, 6},    {2, 3, 2},
                                           {8},  {2, 2, 2}, {3, 3}, {2, 2, 2, 2}};
  const Shape &b = ch.of(bases);
  int first = ch.pick(8);
  ch.shard();
  bfs(ch, b, ALL_TYPES[(b.size() + b[0]) % 6], is_asan() ? 3 : is_thorough() ? 6 : 4, first);
}
SPACE("fork", "two different views of one base, each extended by one more operation in "
              "both orders: neither disturbs the other (5 bases, all triples)") {
  static const std::vector<Shape> bases = {{4}, {2, 3}, {3, 2}, {2, 2, 2}, {1, 4}};
  const Shape &b = ch.of(bases);
  auto ops = view_ops(b, false);
  const VOp &x = ch.of(ops);
  const VOp &y = ch.of(ops);
  ch.shard();
  Pair a = q_new(b, INNC::f32, iota_vals(numel(b), INNC::f32, 1));
  Pair p = apply(a, x), r = apply(a, y);
  for (auto &z : view_ops(p.m.shape, false)) {
    Pair pz = apply(p, z);
    check(pz, "extended first view");
    check(r, "second view");
    ch.step();
  }
  for (auto &z : view_ops(r.m.shape, false)) {
    Pair rz = apply(r, z);
    check(rz, "extended second view");
    check(p, "first view");
    ch.step();
    ch.state(content(rz.m) ^ content(p.m));
  }
  check(a, "base");
}
SPACE("static forms", "INNC::transpose / INNC::reshape / reshape_as / reshape with -1 in "
                      "each place agree with the definition on every layout x shape of "
                      "rank 0..3 over {0,1,2,3}") {
  static const auto ss = shapes(0, 3, {0, 1, 2, 3});
  const Shape &s = ch.of(ss);
  int k = ch.pick(N_LAYOUTS);
  if (!layout_ok(k, s))
    ch.prune();
  ch.shard();
  types dt = ALL_TYPES[(k + s.size()) % 6];
  Pair a = make_layout(k, s, dt, iota_vals(numel(s), dt, 1));
  for (size_t x = 0; x < s.size(); ++x)
    for (size_t y = 0; y < s.size(); ++y)
      if (x != y) {
        LOG("INNC::transpose(a,%zu,%zu)", x, y);
        check(INNC::transpose(a.t, x, y), m_transpose(a.m, x, y), "transpose");
        ch.step();
      }
  std::vector<Shape> f;
  if (numel(s) > 0)
    factor(numel(s), 0, {}, f, 4);
  else
    f = {{0}, {0, 2}, {3, 0}, {1, 0, 4}};
  for (auto &t : f) {
    MT m = m_reshape(a.m, t, true);
    LOG("reshape %s", sstr(t).c_str());
    check(INNC::reshape(a.t, gv(t)), m, "INNC::reshape");
    check(a.t.reshape(gv(t)), m, "reshape");
    Tensor like = Tensor::zeros(sv(t), INNC::i8);
    check(a.t.reshape_as(like), m, "reshape_as");
    ch.step(3);
    if (numel(s) > 0)
      for (size_t d = 0; d < t.size(); ++d) {
        Shape u = t;
        u[d] = -1;
        LOG("reshape %s", sstr(u).c_str());
        check(a.t.reshape(gv(u)), m, "reshape with -1");
        ch.step();
      }
    ch.state(hash_u64(h_layout(a.m), content(m)));
    ch.outcome(content(m));
  }
  check(a, "argument");
}
SPACE("wide", "all transposes, flattening, and reversal of the larger and higher-rank "
              "shapes, twice in a row, x 6 dtypes") {
  const Shape &s = ch.of(wide_shapes());
  types dt = ch.of(ALL_TYPES);
  ch.shard();
  Pair a = q_new(s, dt, iota_vals(numel(s), dt, 1));
  int r = static_cast<int>(s.size());
  for (int x = 0; x < r; ++x)
    for (int y = x + 1; y < r; ++y) {
      if (r > 12 && s[x] == 1 && s[y] == 1 && x % 8 && y % 8)
        continue; // very high ranks: dimensions that matter, and some others
      Pair t = q_transpose(a, x, y);
      check(t, "transposed");
      Pair f = q_reshape(t, {numel(s)});
      check(f, "flattened transpose");
      Pair g = q_reshape(f, s);
      check(g, "reshaped back");
      Pair rv = q_slice(t, std::vector<Sl>(r, sl({}, {}, -1)));
      check(rv, "reversed transpose");
      Pair rf = q_reshape(rv, {numel(s)});
      check(rf, "flattened reversed transpose");
      Pair u = q_transpose(t, x, y);
      check(u, "transposed twice");
      Pair st = q_slice(t, {sl({}, {}, 2)});
      check(st, "strided transpose");
      Pair sf = q_reshape(st, {st.m.n()});
      check(sf, "flattened strided transpose");
      ch.step(8);
      ch.state(content(rf.m));
      ch.outcome(content(rf.m));
    }
  Pair f = q_reshape(a, {numel(s)});
  check(f, "flattened");
  Pair rv = q_slice(f, {sl({}, {}, -1)});
  Pair back = q_reshape(rv, s);
  check(back, "reversed and reshaped");
  ch.step(3);
}

SUCCESSIONS(6)
AGAIN(6)

HIGH_RANKS(6)
