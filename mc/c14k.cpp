// C14: passes that share an intermediate value (known finding).
#include "grads.hpp"
#include <deque>
using namespace mc;

// Running totals: the model's gradient of every pass, added up.
struct Acc {
  Pair p;
  std::vector<num> g;
  bool any = false;
  void add(const Pair &root) {
    auto d = m_grad(root.m, p.m);
    for (size_t i = 0; i < g.size(); ++i)
      g[i] += d[i];
  }
};
static Acc acc(Pair &&p) {
  Acc a;
  a.g.assign(p.m.n(), 0);
  a.p = std::move(p);
  return a;
}
static void verify(const std::deque<Acc> &ls, const char *what) {
  Tol tol(1e-6L, 1e-11L);
  for (auto &l : ls) {
    check_grad(l.p.t, l.p.m.dt, l.p.m.shape, l.g, what);
    check(l.p, "leaf value");
  }
}
// Two passes that traverse the same intermediate value.  The library loses or
// duplicates gradient here (see known_findings.txt); every history of this
// small space is identified by its text and its observed outcome.
SPACE("shared intermediate", "m = f(a), f in {product, product that retains its gradient, row view, clone}; two backward passes "
                             "from roots in {sum(m), sum(m*m), the same root again}") {
  int f = ch.pick(4), r1 = ch.pick(2) * 2, r2 = ch.pick(3);
  if (r2)
    ++r2;
  bool retain = f == 3;
  if (retain)
    f = 0;
  ch.shard();
  static const char *fn[] = {"a*2", "a row", "a.clone"}, *rn[] = {"sum m", "mean m", "sum m*m", "same root"};
  tape.reset();
  std::deque<Acc> ls;
  ls.push_back(acc(q_new({2, 2}, INNC::f64, {1.5L, -2, 3, 0.25L}, true)));
  Pair &a = ls[0].p;
  Pair m = f == 0 ? q_bin(MUL, a, q_new({}, INNC::f64, {2})) : f == 1 ? q_slice(a, {sl_i(1)}) : q_clone(a);
  if (retain) {
    LOG("m.retain_grad(true)");
    m.t.retain_grad(true);
  }
  auto root = [&](int r) { return r == 0 ? q_sum(m) : r == 1 ? q_mean(m) : q_sum(q_bin(MUL, m, m)); };
  Pair L1 = root(r1);
  q_backward(L1);
  ls[0].add(L1);
  verify(ls, "gradient after the first pass");
  Pair L2 = r2 == 3 ? q_handle(L1) : root(r2);
  q_backward(L2);
  ls[0].add(L2);
  std::string got = a.t.grad().to_string();
  for (char &c : got)
    if (c == '[' || c == ']')
      c = '|';
  Obs o = observe(a.t.grad());
  bool bad = false;
  for (int i = 0; i < 4; ++i)
    bad |= !same_num(ls[0].g[i], o.v[i], INNC::f64);
  ch.step(2);
  ch.outcome(hash_u64(f * 100 + r1 * 10 + r2, retain));
  if (bad)
    fail(fmt("two passes through the shared value m=%s: gradient is %s, expected %s", fn[f], got.c_str(), nstr(ls[0].g).c_str()),
         fmt("m=%s%s; %s; %s -> %s", fn[f], retain ? " retained" : "", rn[r1], rn[r2], got.c_str()));
}
