// Successions of unrelated calls.
//
// A bank of small, self-contained calls (operands made, call made, result and
// operands compared with the model), several hundred of them, accepted and
// refused ones, over shapes that share rank, element count or text.  A call's
// outcome may not depend on the call made before it: each property runs every
// call of its own family after every call of the whole bank.
#pragma once
#include "grads.hpp"
#include <functional>
namespace mc {
struct SCall {
  int fam; // number of the property it belongs to
  std::string name;
  std::function<void()> run;
};
inline const std::vector<SCall> &succ_bank() {
  static const std::vector<SCall> bank = [] {
    std::vector<SCall> b;
    auto add = [&](int fam, const std::string &n, std::function<void()> f) { b.push_back({fam, n, std::move(f)}); };
    auto refuse = [&](const std::string &n, std::function<void()> f) {
      b.push_back({4, "refused: " + n, [n, f] {
                     if (!throws(f))
                       fail("accepted instead of rejected: " + n);
                   }});
    };
    static const std::vector<Shape> ss = {{},     {1},    {4},    {6},    {12},      {1, 4},    {4, 1},    {2, 2},    {2, 3}, {3, 2},
                                          {2, 6}, {3, 4}, {4, 3}, {6, 2}, {1, 2, 2}, {2, 1, 3}, {2, 3, 2}, {3, 2, 2}, {0},    {0, 2}};
    static const std::vector<types> ts = {INNC::i8, INNC::i32, INNC::i64, INNC::f32, INNC::f64};
    auto val = [](const Shape &s, types dt, int salt) { return iota_vals(numel(s), dt, salt); };
    int k = 0;
    for (auto &s : ss) {
      types dt = ts[k++ % ts.size()];
      for (types d : {dt, dt == INNC::f64 ? INNC::i32 : INNC::f64}) {
        std::string n = sstr(s) + tname(d);
        add(1, "zeros " + n, [s, d] { check(Tensor::zeros(sv(s), d), m_new(s, d, std::vector<num>(numel(s), 0)), "zeros"); });
        add(1, "ones " + n, [s, d] { check(Tensor::ones(sv(s), d), m_new(s, d, std::vector<num>(numel(s), 1)), "ones"); });
        add(1, "full -3 " + n, [s, d] { check(Tensor::full(sv(s), std::int64_t(-3), d), m_new(s, d, std::vector<num>(numel(s), -3)), "full"); });
        add(1, "full 5.0 " + n, [s, d] { check(Tensor::full(sv(s), 5.0, d), m_new(s, d, std::vector<num>(numel(s), 5)), "full"); });
        add(1, "from_blob " + n, [s, d, val] { check(q_new(s, d, val(s, d, 3)), "from_blob"); });
      }
      add(8, "sum " + sstr(s), [s, dt, val] { Pair a = q_new(s, dt, val(s, dt, 1)); check(q_sum(a), "sum"); check(a, "operand"); });
      if (numel(s)) {
        add(8, "mean " + sstr(s), [s, dt, val] { Pair a = q_new(s, dt, val(s, dt, 2)); check(q_mean(a), "mean"); });
        add(8, "max " + sstr(s), [s, dt, val] { Pair a = q_new(s, dt, val(s, dt, 3)); check(q_max(a), "max"); });
        add(8, "min " + sstr(s), [s, dt, val] { Pair a = q_new(s, dt, val(s, dt, 4)); check(q_min(a), "min"); });
        add(3, "all " + sstr(s), [s, dt, val] {
          auto v = val(s, dt, 4);
          Tensor t = r_new(s, dt, v);
          if (!t.all())
            fail("all() is false without a zero");
          v.back() = 0;
          Tensor u = r_new(s, dt, v);
          if (u.all())
            fail("all() is true with a zero at the end");
        });
      }
      for (types to : {INNC::i16, INNC::f32, INNC::i64})
        add(9, "cast " + sstr(s) + tname(dt) + tname(to), [s, dt, to] {
          std::vector<num> v(numel(s));
          for (size_t i = 0; i < v.size(); ++i)
            v[i] = static_cast<int>(i) - 3;
          Pair a = q_new(s, dt, v);
          check(q_cast(a, to), "cast");
          check(a, "operand");
        });
      add(2, "neg " + sstr(s), [s, dt, val] { Pair a = q_new(s, dt, val(s, dt, 1)); check(q_neg(a), "negation"); check(a, "operand"); });
      add(2, "abs " + sstr(s), [s, dt, val] { Pair a = q_new(s, dt, val(s, dt, 1)); check(q_abs(a), "abs"); check(a, "operand"); });
      // slices: the same texts on every shape
      for (auto &v : std::vector<std::vector<Sl>>{{sl(1)}, {sl({}, -1)}, {sl({}, {}, -1)}, {sl_i(0)}, {sl_i(-1)}, {sl(1, 2)}, {sl({}, {}, 2)},
                                                  {sl(), sl_i(0)}, {sl(), sl(1)}, {sl_i(0), sl({}, {}, -1)}, {sl(), sl(), sl_i(-1)}, {sl(), sl({}, {}, -2)}}) {
        std::string n = sstr(s) + "[" + slstr(v) + "]";
        if (m_slice(m_new(s, dt, val(s, dt, 1)), v))
          add(5, n, [s, dt, v, val] { Pair a = q_new(s, dt, val(s, dt, 1)); check(q_slice(a, v), "slice"); check(a, "base"); });
        else
          refuse(n, [s, dt, v, val] { Tensor a = r_new(s, dt, val(s, dt, 1)); a[slstr(v)]; });
      }
      for (auto &x : std::vector<std::pair<int, int>>{{0, 1}, {1, 0}, {0, 2}, {1, 2}}) {
        std::string n = sstr(s) + fmt(".transpose(%d,%d)", x.first, x.second);
        if (std::max(x.first, x.second) < static_cast<int>(s.size()))
          add(6, n, [s, dt, x, val] { Pair a = q_new(s, dt, val(s, dt, 1)); check(q_transpose(a, x.first, x.second), "transpose"); });
        else
          refuse(n, [s, dt, x, val] { Tensor a = r_new(s, dt, val(s, dt, 1)); a.transpose(x.first, x.second); });
      }
      for (auto &to : std::vector<Shape>{{-1}, {2, -1}, {3, -1}, {2, 2}, {3, 2}, {6, 2}, {12, 1}, {2, 3, 2}}) {
        std::string n = sstr(s) + ".reshape" + sstr(to);
        Shape r = to;
        int prod = 1, hole = -1;
        for (size_t i = 0; i < r.size(); ++i)
          if (r[i] < 0)
            hole = static_cast<int>(i);
          else
            prod *= r[i];
        bool ok = hole < 0 ? prod == numel(s) : numel(s) % prod == 0;
        if (hole >= 0)
          r[hole] = numel(s) / prod;
        if (ok)
          add(6, n, [s, dt, to, r, val] {
            Pair a = q_new(s, dt, val(s, dt, 1));
            check(a.t.reshape(gv(to)), m_reshape(a.m, r, true), "reshape");
          });
        else
          refuse(n, [s, dt, to, val] { Tensor a = r_new(s, dt, val(s, dt, 1)); a.reshape(gv(to)); });
      }
      add(11, "metadata " + sstr(s), [s, dt, val] {
        Pair a = q_new(s, dt, val(s, dt, 1));
        if (a.t.numel() != static_cast<size_t>(numel(s)) || a.t.dim() != s.size() || !a.t.is_contiguous() || a.t.stride().size() != s.size())
          fail("metadata of a new " + sstr(s) + " tensor");
        for (size_t d = 0; d < s.size(); ++d)
          if (a.t.size()[d] != static_cast<size_t>(s[d]))
            fail("size of a new " + sstr(s) + " tensor");
        ll st = 1;
        for (int d = static_cast<int>(s.size()) - 1; d >= 0; st *= s[d], --d)
          if (numel(s) && s[d] > 1 && a.t.stride()[d] != st)
            fail("stride of a new " + sstr(s) + " tensor");
        check(a, "new tensor");
      });
      if (s.size() >= 2 && s[0] > 1 && s[1] > 1)
        add(11, "contiguous " + sstr(s), [s, dt, val] {
          Pair a = q_new(s, dt, val(s, dt, 1));
          Pair t = q_transpose(a, 0, 1);
          if (t.t.is_contiguous())
            fail("a transposed view claims to be contiguous");
          Pair c = q_contiguous(t);
          if (!c.t.is_contiguous())
            fail("contiguous() is not contiguous");
          check(c, "contiguous()");
        });
      if (!s.empty() && s[0] > 1)
        add(7, "write through " + sstr(s), [s, val] {
          Pair a = q_new(s, INNC::i64, val(s, INNC::i64, 1));
          Pair v = q_slice(a, {sl(1)});
          v.t += Tensor(std::int64_t(1000));
          for (int i : v.m.idx)
            v.m.buf->v[i] += 1000;
          check(a, "base after a write through a view");
          Pair c = q_clone(a);
          c.t += Tensor(std::int64_t(7));
          check(a, "source after a write to its clone");
        });
      add(18, "+= " + sstr(s), [s, val] {
        Pair a = q_new(s, INNC::i32, val(s, INNC::i32, 1)), c = q_new(s, INNC::i16, val(s, INNC::i16, 2));
        a.t += c.t;
        a.t += Tensor(std::int8_t(1));
        for (int i = 0; i < a.m.n(); ++i)
          a.m.buf->v[i] += c.m.at(i) + 1;
        check(a, "+=");
        check(c, "right operand");
      });
      if (!s.empty())
        for (int d = 0; d < static_cast<int>(s.size()); ++d)
          add(10, "cat " + sstr(s) + fmt(" along %d", d), [s, dt, d, val] {
            Pair a = q_new(s, dt, val(s, dt, 1)), c = q_new(s, INNC::i32, val(s, INNC::i32, 2));
            check(q_cat({&a, &c, &a}, d), "cat");
          });
      refuse("cat " + sstr(s) + " with another rank", [s, dt, val] {
        std::vector<Tensor> l(2);
        l[0] = r_new(s, dt, val(s, dt, 1));
        l[1] = r_new({1, 1, 1, 2}, dt, val({2}, dt, 1));
        Tensor::cat(l, 0);
      });
      // gradients
      for (types d : {INNC::f32, INNC::f64})
        for (int o = 0; o < 6; ++o)
          if (numel(s))
            add(12, fmt("gradient %d of ", o) + sstr(s) + tname(d), [s, d, o] {
              tape.reset();
              int n = numel(s);
              Pair a = q_new(s, d, pow2_vals(n, d, 1), true), c = q_new(s, INNC::f64, pow2_vals(n, INNC::f64, 2), true), r;
              switch (o) {
              case 0: r = q_bin(MUL, a, c); break;
              case 1: r = q_bin(DIV, a, c); break;
              case 2: r = q_reshape(a, {n}); break;
              case 3: r = s.empty() ? q_abs(a) : q_slice(a, {sl({}, {}, -1)}); break;
              case 4: r = s.size() < 2 ? q_clone(a) : q_transpose(a, 0, 1); break;
              default: r = s.empty() ? q_neg(a) : q_cat({&a, &c, &a}, 0); break;
              }
              Pair L = weighted(r, INNC::f64, o % 4);
              q_backward(L);
              Tol tol(1e-6L, 1e-12L);
              for (Pair *p : {&a, &c}) {
                auto g = m_grad(L.m, p->m);
                bool any = false;
                for (num q : g)
                  any |= q != 0;
                check_grad(p->t, p->m.dt, p->m.shape, any ? g : std::vector<num>{}, "gradient");
              }
            });
      if (numel(s) > 1)
        refuse("backward of " + sstr(s), [s] {
          Tensor a = Tensor::ones(sv(s), INNC::f32);
          a.requires_grad(true);
          Tensor c = a * a;
          c.backward();
        });
    }
    // arithmetic, comparisons: shape pairs that broadcast and that do not
    static const std::vector<std::pair<Shape, Shape>> sp = {
        {{}, {}}, {{4}, {4}}, {{4}, {}}, {{}, {4}}, {{2, 2}, {2}}, {{2, 2}, {2, 1}}, {{1, 2}, {2, 1}}, {{2, 3}, {2, 3}}, {{3, 2}, {3, 2}}, {{6}, {6}},
        {{2, 3}, {3}}, {{3, 2}, {2}}, {{3, 2}, {3, 1}}, {{2, 3, 2}, {3, 1}}, {{3, 2, 2}, {2, 1}}, {{12}, {1}},
        {{2, 3}, {2}}, {{3, 2}, {3}}, {{4}, {6}}, {{2, 3}, {3, 2}}, {{2, 6}, {3, 4}}, {{0}, {2}}};
    static const std::vector<std::pair<types, types>> tp = {{INNC::i32, INNC::i32}, {INNC::f32, INNC::f32}, {INNC::f64, INNC::i8}, {INNC::i8, INNC::i64}};
    for (auto &s : sp)
      for (int o = 0; o < 10; ++o) {
        auto &t = tp[k++ % tp.size()];
        std::string n = sstr(s.first) + tname(t.first) + (o < 4 ? op_str[o] : cmp_str[o - 4]) + sstr(s.second) + tname(t.second);
        bool ok = bshape(s.first, s.second).has_value();
        auto mk = [s, t](Pair &a, Pair &c) {
          a = q_new(s.first, t.first, iota_vals(numel(s.first), t.first, 1));
          c = q_new(s.second, t.second, pow2_vals(numel(s.second), t.second, 2));
        };
        if (!ok)
          refuse(n, [mk, o] { Pair a, c; mk(a, c); if (o < 4) r_bin(static_cast<Op>(o), a.t, c.t); else r_cmp(static_cast<Cmp>(o - 4), a.t, c.t); });
        else if (o < 4)
          add(2, n, [mk, o] { Pair a, c; mk(a, c); check(q_bin(static_cast<Op>(o), a, c), "arithmetic"); check(a, "left operand"); check(c, "right operand"); });
        else
          add(3, n, [mk, o] { Pair a, c; mk(a, c); check(r_cmp(static_cast<Cmp>(o - 4), a.t, c.t), m_cmp(static_cast<Cmp>(o - 4), a.m, c.m), "comparison"); });
      }
    // a refusal in the middle of the work: the zero divisor at every position
    for (auto &s : std::vector<Shape>{{4}, {2, 2}, {2, 3}})
      for (int z = 0; z < numel(s); ++z)
        refuse("division by zero at " + std::to_string(z) + " of " + sstr(s), [s, z] {
          auto v = pow2_vals(numel(s), INNC::i32);
          v[z] = 0;
          Tensor a = r_new(s, INNC::i32, iota_vals(numel(s), INNC::i32)), c = r_new(s, INNC::i32, v);
          a / c;
        });
    for (int n : {1, 2, 3, 5})
      add(1, fmt("eye %d", n), [n] {
        std::vector<num> v(n * n, 0);
        for (int i = 0; i < n; ++i)
          v[i * n + i] = 1;
        check(Tensor::eye(n, INNC::i16), m_new({n, n}, INNC::i16, v), "eye");
      });
    for (types dt : ts)
      for (int f = 0; f < 3; ++f)
        add(17, fmt("text %d ", f) + tname(dt), [dt, f] {
          Shape s = f == 0 ? Shape{} : f == 1 ? Shape{3} : Shape{3, 1};
          std::vector<num> v(numel(s));
          std::string want = f ? "[" : "";
          for (size_t i = 0; i < v.size(); ++i) {
            v[i] = static_cast<int>(i) * 7 - 7;
            std::string x = isf(dt) ? std::to_string(static_cast<double>(v[i])) : std::to_string(static_cast<int>(v[i]));
            want += (i ? ", " : "") + (f == 2 ? "[" + x + "]" : x);
          }
          want += f ? "]" : "";
          Tensor t = r_new(s, dt, v);
          if (t.to_string() != want)
            fail("to_string() is " + t.to_string() + ", expected " + want);
        });
    refuse("integer requires_grad", [] { Tensor::zeros({2}, INNC::i8).requires_grad(true); });
    refuse("cat of nothing", [] { Tensor::cat({}, 0); });
    refuse("randn of integers", [] { Tensor::randn({2}, INNC::i32); });
    for (const char *x : {"a", "1:2:0", "1:2:3:4", "1x", "--1", ":,:,:"})
      refuse(std::string("slice text ") + x, [x] { Tensor t = Tensor::zeros({2, 2}, INNC::i8); t[x]; });
    return b;
  }();
  return bank;
}
// every call of family fam after every call of the bank, and once more after
// itself
inline void succession(Chooser &ch, int fam) {
  auto &b = succ_bank();
  std::vector<int> own;
  for (size_t i = 0; i < b.size(); ++i)
    if (fam == 0 || b[i].fam == fam)
      own.push_back(static_cast<int>(i));
  int x = ch.pick(static_cast<int>(b.size()));
  ch.shard();
  if (is_asan() && !is_thorough() && x % 29)
    ch.prune();
  for (int y : own) {
    LOG("%s", b[x].name.c_str());
    b[x].run();
    LOG("then: %s", b[y].name.c_str());
    b[y].run();
    ch.step(2);
    if (is_thorough()) {
      LOG("and once more: %s", b[x].name.c_str());
      b[x].run();
      b[y].run();
      ch.step(2);
    }
    ch.state(hash_u64(x, y));
  }
  ch.outcome(x);
}
#define SUCCESSIONS(fam)                                                                                           \
  SPACE("successions", "every call of this property's family in a bank of small calls (accepted and refused, over " \
                       "20 shapes sharing rank, element count or request text), made after every call of the bank: "\
                       "the outcome of both is exact") {                                                           \
    succession(ch, fam);                                                                                           \
  }
} // namespace mc
