// Every operation at higher ranks.
//
// The shape spaces are complete up to rank 3 or 4.  Here: ranks 5..9 (thorough
// 12), an extent of 2 and one of 3 at every pair of dimensions and 1 elsewhere,
// and 2 everywhere for ranks 5..7, so that every dimension and every pair of
// dimensions of a rank matters once.
#pragma once
#include "grads.hpp"
#include "views.hpp"
namespace mc {
inline const std::vector<Shape> &high_ranks() {
  static const std::vector<Shape> v = [] {
    std::vector<Shape> r;
    int top = is_thorough() ? 12 : is_asan() ? 6 : 9;
    for (int n = 5; n <= top; ++n)
      for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j)
          for (int f = 0; f < 2; ++f) {
            Shape s(n, 1);
            s[i] = 2 + f;
            s[j] = 3 - f;
            r.push_back(s);
          }
    for (int n = 5; n <= (is_asan() ? 5 : 7); ++n)
      r.push_back(Shape(n, 2));
    return r;
  }();
  return v;
}
// partners that broadcast with s: one dimension reduced, all but one reduced,
// leading dimensions dropped, and those of s that are 1 stretched
inline std::vector<Shape> rank_partners(const Shape &s) {
  std::vector<Shape> r = {s, {}, {1}};
  int n = static_cast<int>(s.size());
  for (int d = 0; d < n; ++d) {
    r.push_back(Shape(s.begin() + d, s.end()));
    Shape a = s, b(n, 1);
    a[d] = 1;
    b[d] = s[d];
    r.push_back(a);
    r.push_back(b);
    if (s[d] == 1) {
      Shape c = s, e(n, 1);
      c[d] = e[d] = 2;
      r.push_back(c);
      r.push_back(e);
      r.push_back(Shape(e.begin() + d, e.end()));
    }
  }
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
// partners that differ from s in one dimension and do not broadcast with it
inline std::vector<Shape> rank_misfits(const Shape &s) {
  std::vector<Shape> r;
  for (size_t d = 0; d < s.size(); ++d)
    if (s[d] > 1)
      for (int e : {0, s[d] - 1, s[d] + 1, 2 * s[d]})
        if (e != 1) {
          Shape c = s, o(s.size(), 1);
          c[d] = o[d] = e;
          r.push_back(c);
          r.push_back(o);
          r.push_back(Shape(o.begin() + static_cast<long>(d), o.end()));
          Shape p = c;
          p.insert(p.begin(), 2);
          r.push_back(p);
        }
  return r;
}
inline void rank_refuse(Chooser &ch, const std::string &what, const std::function<void()> &f) {
  LOG("expect an exception: %s", what.c_str());
  if (!throws(f))
    fail("accepted instead of rejected: " + what);
  ch.step();
}
inline std::vector<num> rank_vals(int n, types dt, int salt) {
  std::vector<num> v;
  for (int i = 0; i < n; ++i) {
    num x = (i * 5 + salt * 3 + i / 3) % 7 + 1;
    v.push_back(i % 2 ? -x : x);
  }
  (void)dt;
  return v;
}
inline void high_rank(Chooser &ch, int fam) {
  int si = ch.pick(static_cast<int>(high_ranks().size()));
  const Shape &s = high_ranks()[si];
  ch.shard();
  tape.reset();
  int R = static_cast<int>(s.size()), n = numel(s);
  types dt = ALL_TYPES[si % 6], du = ALL_TYPES[(si / 6 + si) % 6];
  types ft = si % 2 ? INNC::f32 : INNC::f64;
  int salt = 0;
  auto lays = [&](const Shape &x) {
    std::vector<int> r;
    for (int k : {0, 2 + (salt++) % 12})
      if (layout_ok(k, x))
        r.push_back(k);
    if (r.empty())
      r.push_back(0);
    return r;
  };
  auto make = [&](const Shape &x, int k, types t) { return make_layout(k, x, t, rank_vals(numel(x), t, ++salt)); };
  ch.state(hash_bytes(fam, s.data(), s.size() * sizeof(int)));
  auto slices = [&](int d) {
    std::vector<std::vector<Sl>> r;
    for (auto &f : std::vector<Sl>{sl({}, {}, -1), sl(1), sl({}, -1), sl({}, {}, 2), sl_i(0), sl_i(-1), sl(-2, {}, -1), sl(0, 0)}) {
      std::vector<Sl> v(d, sl()), w(d, sl({}, {}, -1)), z(d, sl_i(0));
      v.push_back(f);
      w.push_back(f);
      z.push_back(f);
      r.push_back(v);
      r.push_back(w);
      r.push_back(z);
      v.resize(R, sl());
      v.back() = d == R - 1 ? f : sl({}, {}, -1);
      r.push_back(v);
    }
    return r;
  };
  switch (fam) {
  case 1: {
    auto v = rank_vals(n, dt, 1);
    check(q_new(s, dt, v), "from_blob");
    check(Tensor::zeros(sv(s), dt), m_new(s, dt, std::vector<num>(n, 0)), "zeros");
    check(Tensor::ones(sv(s), dt), m_new(s, dt, std::vector<num>(n, 1)), "ones");
    check(Tensor::full(sv(s), std::int64_t(-7), dt), m_new(s, dt, std::vector<num>(n, -7)), "full");
    check(Tensor::full(sv(s), 9.0, dt), m_new(s, dt, std::vector<num>(n, 9)), "full");
    for (int k : lays(s)) {
      Pair p = make(s, k, dt);
      check(Tensor::zeros_like(p.t), m_new(s, dt, std::vector<num>(n, 0)), "zeros_like");
      check(Tensor::ones_like(p.t), m_new(s, dt, std::vector<num>(n, 1)), "ones_like");
      check(p, "prototype");
    }
    ch.step(8);
    break;
  }
  case 2:
    for (auto &o : rank_partners(s)) {
      Op op = static_cast<Op>(salt % 4);
      for (int ka : lays(s))
        for (int kb : lays(o)) {
          Pair a = make(s, ka, dt), b = make(o, kb, du);
          check(q_bin(op, a, b), "result");
          check(q_bin(op, b, a), "result with the operands exchanged");
          check(q_bin(static_cast<Op>((op + 1) % 4), a, b), "result");
          check(a, "left");
          check(b, "right");
          ch.step(3);
        }
    }
    for (int k : lays(s)) {
      Pair a = make(s, k, dt);
      check(q_neg(a), "negation");
      check(q_abs(a), "absolute value");
      ch.step(2);
    }
    break;
  case 3:
    for (auto &o : rank_partners(s))
      for (int ka : lays(s)) {
        Cmp op = static_cast<Cmp>(salt % 6);
        Pair a = make(s, ka, dt), b = make(o, lays(o).back(), du);
        check(r_cmp(op, a.t, b.t), m_cmp(op, a.m, b.m), "comparison");
        check(r_cmp(op, b.t, a.t), m_cmp(op, b.m, a.m), "comparison, exchanged");
        ch.step(2);
      }
    for (int k = 0; k < N_LAYOUTS; ++k)
      if (layout_ok(k, s))
        for (int z = -1; z < n; ++z) {
          auto v = rank_vals(n, dt, 1);
          if (z >= 0)
            v[z] = 0;
          Pair a = make_layout(k, s, dt, v);
          if (a.t.all() != (z < 0))
            fail(fmt("all() of %s with %s zero%s is %d", sstr(s).c_str(), z < 0 ? "no" : "one", z < 0 ? "" : fmt(" at %d", z).c_str(), z >= 0));
          ch.step();
        }
    break;
  case 4: {
    Pair a = make(s, lays(s).back(), dt);
    auto ms = rank_misfits(s);
    for (auto &o : ms) {
      Pair b = make(o, 0, du);
      std::string t = sstr(s) + " with " + sstr(o);
      for (int op = 0; op < 4; ++op) {
        rank_refuse(ch, t + " " + op_str[op], [&] { r_bin(static_cast<Op>(op), a.t, b.t); });
        rank_refuse(ch, sstr(o) + " with " + sstr(s) + " " + op_str[op], [&] { r_bin(static_cast<Op>(op), b.t, a.t); });
      }
      Cmp c = static_cast<Cmp>(salt % 6);
      rank_refuse(ch, t + " " + cmp_str[c], [&] { r_cmp(c, a.t, b.t); });
      rank_refuse(ch, t + " +=", [&] { a.t += b.t; });
      check(b, "partner of a refused operation");
    }
    check(a, "operand of refused operations");
    for (size_t x = 0; x < s.size() + 2; ++x)
      for (size_t y = 0; y < s.size() + 2; ++y)
        if (x == y || x >= s.size() || y >= s.size())
          rank_refuse(ch, fmt("%s.transpose(%zu,%zu)", sstr(s).c_str(), x, y), [&] { a.t.transpose(x, y); });
    for (int d = 0; d < R; ++d)
      for (const char *pre : {":", "0", "::-1"}) {
        std::string p;
        for (int i = 0; i < d; ++i)
          p += std::string(pre) + ",";
        for (auto &e : {std::to_string(s[d]), std::to_string(-s[d] - 1), std::string("::0"), std::string("x"), std::string("9999999999")})
          rank_refuse(ch, sstr(s) + "[" + p + e + "]", [&] { a.t[p + e]; });
      }
    // reshapes: an extent too many in every dimension, two holes
    for (int d = 0; d < R; ++d) {
      Shape o = s;
      o[d] += 1;
      rank_refuse(ch, sstr(s) + ".reshape" + sstr(o), [&] { a.t.reshape(gv(o)); });
      o[d] = 5;
      o[(d + 1) % R] = -1;
      rank_refuse(ch, sstr(s) + ".reshape" + sstr(o), [&] { a.t.reshape(gv(o)); });
      o = s;
      o[d] = -2;
      rank_refuse(ch, sstr(s) + ".reshape" + sstr(o), [&] { a.t.reshape(gv(o)); });
      o[d] = o[(d + 2) % R] = -1;
      rank_refuse(ch, sstr(s) + ".reshape" + sstr(o), [&] { a.t.reshape(gv(o)); });
    }
    // cat: one part misfits in one dimension, the others fit
    for (int dim = 0; dim < R; ++dim)
      for (int d = 0; d < R; ++d)
        if (d != dim) {
          Shape o = s;
          o[d] += 1 + salt % 2;
          Pair b = make(o, 0, dt), c = make(s, 0, dt);
          for (int at = 0; at < 2; ++at) {
            std::vector<Tensor> ts(2);
            ts[at] = a.t;
            ts[1 - at] = b.t;
            rank_refuse(ch, fmt("cat along %d of ", dim) + sstr(s) + " and " + sstr(o), [&] { INNC::cat(ts, dim); });
          }
        }
    std::vector<Tensor> ts(2);
    ts[0] = a.t;
    ts[1] = a.t;
    rank_refuse(ch, "cat along the rank", [&] { INNC::cat(ts, R); });
    Pair lead = make(Shape(s.begin() + 1, s.end()), 0, dt);
    ts[1] = lead.t;
    for (int dim = 0; dim < R; ++dim)
      rank_refuse(ch, "cat of different ranks", [&] { INNC::cat(ts, dim); });
    check(a, "operand of refused requests");
    break;
  }
  case 5:
    for (int k : lays(s)) {
      Pair a = make(s, k, dt);
      for (int d = 0; d < R; ++d)
        for (auto &v : slices(d))
          if (m_slice(a.m, v)) {
            check(q_slice(a, v), "slice");
            ch.step();
          }
      check(a, "base");
    }
    break;
  case 6:
  case 11:
  case 17:
    for (int k : lays(s)) {
      Pair a = make(s, k, dt);
      // copied: a reshape that may or may not share its elements
      auto one = [&](const Pair &p, bool copied = false) {
        check(p, "view");
        ch.step();
        if (fam == 6)
          return;
        if (p.t.dim() != p.m.shape.size() || p.t.numel() != static_cast<size_t>(p.m.n()))
          fail("dim() or numel() of a view of rank " + std::to_string(p.m.shape.size()));
        auto st = p.t.stride();
        for (int i = 0; fam == 11 && !copied && i < p.m.n(); ++i) {
          ll pos = 0, x = i;
          for (int d = static_cast<int>(p.m.shape.size()) - 1; d >= 0; --d) {
            pos += st[d] * (x % p.m.shape[d]);
            x /= p.m.shape[d];
          }
          if (pos != p.m.idx[i] - p.m.idx[0])
            fail(fmt("strides of %s place element %d at %lld, it is at %d", sstr(p.m.shape).c_str(), i, pos, p.m.idx[i] - p.m.idx[0]));
        }
        if (fam == 11 && p.m.n()) {
          if (!copied && p.t.is_contiguous() && !model_contiguous(p.m))
            fail("is_contiguous() of a view that is not dense, shape " + sstr(p.m.shape));
          Tensor c = p.t.contiguous();
          check(c, p.m, "contiguous copy");
          if (!c.is_contiguous())
            fail("a contiguous copy is not contiguous, shape " + sstr(p.m.shape));
          check(p.t.clone(), p.m, "clone");
        }
      };
      one(a);
      for (int x = 0; x < R; ++x)
        for (int y = 0; y < R; ++y)
          if (x != y && (x < y || fam == 6)) {
            Pair t = q_transpose(a, x, y);
            one(t);
            Shape f = {n};
            one(q_reshape(t, f), true);
            if (fam == 6)
              one(q_transpose(t, y, (y + 1) % R == x && R > 2 ? (y + 2) % R : (y + 1) % R));
            one(q_reshape(t, s), true);
          }
      for (int d = 0; d <= R; ++d) { // a further 1 anywhere, the reversed and the flat shape
        Shape f = s;
        f.insert(f.begin() + d, 1);
        one(q_reshape(a, f), true);
        Shape h = f;
        h[d] = -1;
        check(a.t.reshape(gv(h)), m_reshape(a.m, f, true), "reshape with -1");
      }
      Shape rev(s.rbegin(), s.rend());
      one(q_reshape(a, rev), true);
      for (int d = 0; d < R; ++d) {
        std::vector<Sl> v(d, sl());
        v.push_back(sl({}, {}, -1));
        Pair t = q_slice(a, v);
        one(t);
        one(q_reshape(t, {n}), true);
        v.back() = sl_i(-1);
        one(q_slice(a, v));
      }
    }
    break;
  case 7:
  case 18:
    // in-place addition to the tensor and through views, seen in the base
    for (int k : lays(s)) {
      for (auto &o : rank_partners(s))
        if (bshape(s, o) && *bshape(s, o) == s) {
          Pair a = make(s, k, dt), b = make(o, lays(o).back(), fam == 18 ? du : dt);
          MT want = m_cast(m_bin(ADD, a.m, b.m), dt);
          a.t += b.t;
          for (int i = 0; i < n; ++i)
            a.m.buf->v[a.m.idx[i]] = want.at(i);
          check(a, "target");
          check(b, "addend");
          ch.step();
        }
      for (int d = 0; d < R; ++d)
        for (auto &f : {sl_i(0), sl(1), sl({}, {}, -1), sl_i(-1)}) {
          Pair a = make(s, k, dt);
          std::vector<Sl> v(d, sl());
          v.push_back(f);
          Pair x = q_slice(a, v);
          Pair y = x.m.shape.size() >= 2 ? q_transpose(x, 0, static_cast<int>(x.m.shape.size()) - 1) : q_handle(x);
          y.t += Tensor::full({}, std::int64_t(3), dt);
          for (int i = 0; i < y.m.n(); ++i)
            y.m.buf->v[y.m.idx[i]] += 3;
          check(a, "base");
          check(x, "view");
          check(y, "view of the view");
          ch.step();
        }
    }
    break;
  case 8:
    for (int k = 0; k < N_LAYOUTS; ++k)
      if (layout_ok(k, s)) {
        Pair a = make(s, k, dt);
        check(q_sum(a), "sum");
        check(q_mean(a), "mean");
        check(q_max(a), "max");
        check(q_min(a), "min");
        ch.step(4);
        for (int z = 0; z < n; ++z) {
          auto v = rank_vals(n, dt, 1);
          v[z] = 100;
          Pair b = make_layout(k, s, dt, v);
          check(q_max(b), "max");
          check(q_sum(b), "sum");
          v[z] = -100;
          Pair c = make_layout(k, s, dt, v);
          check(q_min(c), "min");
          ch.step(3);
        }
      }
    break;
  case 9:
    for (int k = 0; k < N_LAYOUTS; ++k)
      if (layout_ok(k, s))
        for (types to : ALL_TYPES) {
          Pair a = make(s, k, dt);
          check(q_cast(a, to), "cast");
          check(a, "operand");
          ch.step();
        }
    break;
  case 10:
    for (int dim = 0; dim < R; ++dim)
      for (int k : lays(s)) {
        std::vector<Pair> ps;
        for (int i = 0; i < 3; ++i) {
          Shape o = s;
          o[dim] = i == 1 ? 1 : s[dim] + i;
          ps.push_back(make(o, layout_ok(k, o) ? k : 0, i == 2 ? du : dt));
        }
        check(q_cat({&ps[0], &ps[1], &ps[2]}, dim), "cat");
        check(q_cat({&ps[2], &ps[0]}, dim), "cat");
        for (auto &p : ps)
          check(p, "part");
        ch.step(2);
      }
    break;
  case 12: {
    auto done = [&](const Pair &r, std::vector<Operand *> os, int how) {
      Pair L = weighted(r, isf(r.m.dt) ? r.m.dt : INNC::f64, how);
      Tol tol(1e-6L, 1e-12L);
      q_backward(L);
      for (auto o : os)
        check_operand(L, *o, "gradient at a high rank");
      ch.step(2);
    };
    auto leaf = [&](const Shape &x, types t, bool p2 = false) {
      ++salt;
      int k = lays(x).back();
      return operand(1 + salt % 2, k, x, t, p2 ? pow2_vals(numel(x), t, salt) : rank_vals(numel(x), t, salt));
    };
    for (auto &o : rank_partners(s)) {
      Op op = static_cast<Op>(salt % 4);
      tape.reset();
      Operand a = leaf(s, ft, op == DIV), b = leaf(o, salt % 3 ? INNC::f64 : INNC::f32, op == DIV);
      if (salt % 2)
        done(q_bin(op, a.v, b.v), {&a, &b}, 0);
      else
        done(q_bin(op, b.v, a.v), {&a, &b}, 1);
    }
    for (int dim = 0; dim < R; ++dim) {
      for (int parts = 2; parts <= 3; ++parts) {
        tape.reset();
        std::vector<Operand> os;
        std::vector<Pair *> ps;
        for (int i = 0; i < parts; ++i) {
          Shape o = s;
          o[dim] = i == 1 ? 1 : s[dim] + i;
          os.push_back(leaf(o, ft));
        }
        std::vector<Operand *> op;
        for (auto &o : os) {
          ps.push_back(&o.v);
          op.push_back(&o);
        }
        done(q_cat(ps, dim), op, dim % 2);
      }
      for (auto &v : slices(dim)) {
        tape.reset();
        Operand a = leaf(s, ft);
        auto m = m_slice(a.v.m, v);
        if (!m || m->n() == 0)
          continue;
        done(q_slice(a.v, v), {&a}, 0);
      }
      for (int y = dim + 1; y < R; ++y) {
        tape.reset();
        Operand a = leaf(s, ft);
        Pair t = q_transpose(a.v, dim, y);
        Pair u = q_reshape(t, s);
        done(q_bin(MUL, u, a.v), {&a}, 1);
      }
    }
    for (int u = 0; u < 9; ++u) {
      tape.reset();
      Operand a = leaf(s, ft);
      // distinct values, so that the extremes are unique
      Pair x;
      switch (u) {
      case 0: x = q_neg(a.v); break;
      case 1: x = q_abs(a.v); break;
      case 2: x = q_clone(a.v); break;
      case 3: x = q_contiguous(a.v); break;
      case 4: x = q_cast(a.v, ft == INNC::f32 ? INNC::f64 : INNC::f32); break;
      case 5: x = q_sum(a.v); break;
      case 6: x = q_mean(a.v); break;
      default: break;
      }
      if (u < 7) {
        done(x, {&a}, 0);
        continue;
      }
      for (int z = 0; z < n; ++z) {
        tape.reset();
        auto v = rank_vals(n, ft, 1);
        v[z] = u == 7 ? 50 : -50;
        Operand b = operand(1 + z % 2, lays(s).back(), s, ft, v);
        done(u == 7 ? q_max(b.v) : q_min(b.v), {&b}, 0);
      }
    }
    break;
  }
  case 14: {
    // two passes, zeroed, one more; a retained intermediate as well
    for (int x = 0; x + 1 < R; ++x) {
      Operand a = operand(1, lays(s).back(), s, ft, rank_vals(n, ft, ++salt));
      std::vector<num> g(n, 0);
      for (int pass = 0; pass < 3; ++pass) {
        tape.reset();
        if (pass == 2) {
          a.v.t.zero_grad();
          check_grad(a.v.t, ft, s, std::vector<num>(n, 0), "zeroed gradient");
          g.assign(n, 0);
        }
        Shape ts = s;
        std::swap(ts[x], ts[R - 1]);
        Tensor y = pass == 1 ? a.v.t + a.v.t : a.v.t * Tensor::full({}, std::int64_t(pass + 2), ft);
        y.retain_grad(true);
        Tensor z = y.transpose(x, R - 1);
        z.sum().backward();
        for (auto &e : g)
          e += 2 + (pass == 2 ? 2 : 0);
        check_grad(a.v.t, ft, s, g, "gradient over passes");
        check_grad(y, ft, s, std::vector<num>(n, 1), "retained gradient");
        ch.step(3);
      }
    }
    break;
  }
  }
}
#define HIGH_RANKS(fam)                                                                                             \
  SPACE("high ranks", "ranks 5..9 (thorough 12, sanitizer build 6): extents 2 and 3 at every pair of dimensions and " \
                      "1 elsewhere, and 2 everywhere: every operation of this property along every dimension, with " \
                      "partners reduced, dropped or stretched in each dimension") {                                  \
    high_rank(ch, fam);                                                                                             \
  }
} // namespace mc
