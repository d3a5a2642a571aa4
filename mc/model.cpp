#include "model.hpp"
#include <algorithm>
#include <cstdarg>

namespace mc {
Tape tape;
num rel32 = 0, rel64 = 0; // values are exact unless a space says otherwise

std::string fmt(const char *f, ...) {
  char buf[4000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

const char *tname(types t) {
  static const char *n[] = {"i8", "i16", "i32", "i64", "f32", "f64"};
  return t >= 0 && t < 6 ? n[t] : "?";
}
size_t tsize(types t) {
  static const size_t n[] = {1, 2, 4, 8, 4, 8};
  return n[t];
}
std::string sstr(const Shape &s) {
  std::string r = "{";
  for (size_t i = 0; i < s.size(); ++i)
    r += (i ? "," : "") + std::to_string(s[i]);
  return r + "}";
}
int numel(const Shape &s) {
  int n = 1;
  for (int x : s)
    n *= x;
  return n;
}
std::vector<Shape> shapes(int rlo, int rhi, const std::vector<int> &ext) {
  std::vector<Shape> all, cur = {{}};
  if (rlo == 0)
    all.push_back({});
  for (int r = 1; r <= rhi; ++r) {
    std::vector<Shape> nx;
    for (auto &c : cur)
      for (int e : ext) {
        nx.push_back(c);
        nx.back().push_back(e);
      }
    cur = nx;
    if (r >= rlo)
      all.insert(all.end(), cur.begin(), cur.end());
  }
  return all;
}

template <typename F> static auto with_type(types t, F f) {
  switch (t) {
  case INNC::i8:
    return f(std::int8_t{});
  case INNC::i16:
    return f(std::int16_t{});
  case INNC::i32:
    return f(std::int32_t{});
  case INNC::i64:
    return f(std::int64_t{});
  case INNC::f32:
    return f(float{});
  default:
    return f(double{});
  }
}

num convert(num v, types to) {
  if (isf(to))
    return to == INNC::f32 ? static_cast<num>(static_cast<float>(v))
                           : static_cast<num>(static_cast<double>(v));
  std::int64_t i = static_cast<std::int64_t>(v); // truncation
  return with_type(to, [i](auto z) {
    return static_cast<num>(static_cast<decltype(z)>(i)); // modular wrap
  });
}

// ------------------------------------------------------------------ autograd
static void give_seeds(MT &t) {
  t.seed0 = tape.nseeds;
  tape.nseeds += t.n();
  if (static_cast<int>(t.d.size()) != t.n())
    t.d.assign(t.n(), Dual{});
  for (int i = 0; i < t.n(); ++i) {
    if (static_cast<int>(t.d[i].size()) < t.seed0 + i + 1)
      t.d[i].resize(t.seed0 + i + 1, 0);
    t.d[i][t.seed0 + i] += 1;
  }
}
void m_require(MT &t) {
  t.rg = true;
  t.d.clear();
  give_seeds(t);
}
static void axpy(Dual &y, double a, const Dual &x) {
  if (x.size() > y.size())
    y.resize(x.size(), 0);
  for (size_t i = 0; i < x.size(); ++i)
    y[i] += a * x[i];
}
// r was computed; element i depends on src[i] = list of (dual, factor)
static void finish(MT &r, bool rg) {
  r.rg = rg;
  r.leaf = !rg;
  if (rg)
    give_seeds(r);
  else
    r.d.clear();
}
std::vector<num> m_grad(const MT &root, const MT &t) {
  std::vector<num> g;
  for (int i = 0; i < t.n(); ++i) {
    size_t k = t.seed0 + i;
    g.push_back(k < root.d[0].size() ? root.d[0][k] : 0.0);
  }
  return g;
}

// ------------------------------------------------------------------ creation
MT m_new(const Shape &s, types dt, const std::vector<num> &vals) {
  MT t;
  t.dt = dt;
  t.shape = s;
  t.buf = std::make_shared<Buf>();
  t.buf->v = vals;
  for (int i = 0; i < numel(s); ++i)
    t.idx.push_back(i);
  return t;
}

// ------------------------------------------------------------------- slicing
std::string Sl::str() const {
  if (index)
    return std::to_string(i);
  std::string r;
  if (b)
    r += std::to_string(*b);
  r += ":";
  if (e)
    r += std::to_string(*e);
  if (s)
    r += ":" + std::to_string(*s);
  return r;
}
std::string slstr(const std::vector<Sl> &v) {
  std::string r;
  for (size_t i = 0; i < v.size(); ++i)
    r += (i ? "," : "") + v[i].str();
  return r;
}
std::optional<std::vector<int>> py_slice(int n, const Sl &s) {
  std::vector<int> r;
  if (s.index) {
    ll i = s.i < 0 ? s.i + n : s.i;
    if (i < 0 || i >= n)
      return {};
    r.push_back(static_cast<int>(i));
    return r;
  }
  ll step = s.s ? *s.s : 1;
  if (step == 0)
    return {};
  // An element p belongs to the slice iff it is reached from the (clamped)
  // start in multiples of step before the (clamped) stop.
  ll lo = step > 0 ? 0 : -1, hi = step > 0 ? n : n - 1;
  auto clamp = [&](ll x) {
    if (x < 0)
      x += n;
    return std::min(std::max(x, lo), hi);
  };
  ll b = s.b ? clamp(*s.b) : (step > 0 ? lo : hi);
  ll e = s.e ? clamp(*s.e) : (step > 0 ? hi : lo);
  for (int p = 0; p < n; ++p) {
    ll q = step > 0 ? p : n - 1 - p; // visit in slice order
    if (step > 0 ? (q >= b && q < e) : (q <= b && q > e))
      if ((q - b) % step == 0)
        r.push_back(static_cast<int>(q));
  }
  return r;
}
std::optional<MT> m_slice(const MT &t, const std::vector<Sl> &v) {
  if (v.size() > t.shape.size())
    return {};
  std::vector<std::vector<int>> sel;
  Shape ns;
  for (size_t d = 0; d < t.shape.size(); ++d) {
    auto s = py_slice(t.shape[d], d < v.size() ? v[d] : sl());
    if (!s)
      return {};
    sel.push_back(*s);
    if (!(d < v.size() && v[d].index))
      ns.push_back(static_cast<int>(s->size()));
  }
  MT r;
  r.buf = t.buf;
  r.dt = t.dt;
  r.shape = ns;
  bool empty = false;
  for (auto &s : sel)
    empty |= s.empty();
  if (!empty) {
    std::vector<size_t> c(sel.size(), 0);
    while (true) {
      int flat = 0;
      for (size_t d = 0; d < sel.size(); ++d)
        flat = flat * t.shape[d] + sel[d][c[d]];
      r.idx.push_back(t.idx[flat]);
      if (t.rg)
        r.d.push_back(t.d[flat]);
      int d = static_cast<int>(sel.size()) - 1;
      while (d >= 0 && ++c[d] == sel[d].size())
        c[d--] = 0;
      if (d < 0)
        break;
    }
  }
  finish(r, t.rg);
  return r;
}

static std::vector<int> unflat(int f, const Shape &s) {
  std::vector<int> c(s.size());
  for (int d = static_cast<int>(s.size()) - 1; d >= 0; --d) {
    c[d] = f % s[d];
    f /= s[d];
  }
  return c;
}
static int flat(const std::vector<int> &c, const Shape &s) {
  int f = 0;
  for (size_t d = 0; d < s.size(); ++d)
    f = f * s[d] + c[d];
  return f;
}

MT m_transpose(const MT &t, int a, int b) {
  MT r;
  r.buf = t.buf;
  r.dt = t.dt;
  r.shape = t.shape;
  std::swap(r.shape[a], r.shape[b]);
  for (int i = 0; i < t.n(); ++i) {
    auto c = unflat(i, r.shape);
    std::swap(c[a], c[b]);
    int f = flat(c, t.shape);
    r.idx.push_back(t.idx[f]);
    if (t.rg)
      r.d.push_back(t.d[f]);
  }
  finish(r, t.rg);
  return r;
}
MT m_copy(const MT &t) {
  std::vector<num> v;
  for (int i = 0; i < t.n(); ++i)
    v.push_back(t.at(i));
  MT r = m_new(t.shape, t.dt, v);
  r.d = t.d;
  finish(r, t.rg);
  return r;
}
MT m_reshape(const MT &t, const Shape &s, bool share) {
  MT r = t;
  if (!share)
    r = m_copy(t);
  else
    finish(r, t.rg);
  r.shape = s;
  return r;
}
MT m_cast(const MT &t, types dt) {
  std::vector<num> v;
  for (int i = 0; i < t.n(); ++i)
    v.push_back(convert(t.at(i), dt));
  MT r = m_new(t.shape, dt, v);
  r.d = t.d;
  finish(r, t.rg);
  return r;
}
MT m_detach(const MT &t) {
  MT r = t;
  r.rg = false;
  r.leaf = true;
  r.seed0 = -1;
  r.d.clear();
  return r;
}

// --------------------------------------------------------------- elementwise
const char *op_str[] = {"+", "-", "*", "/"};
const char *cmp_str[] = {"<", ">", "<=", ">=", "==", "!="};

std::optional<Shape> bshape(const Shape &a, const Shape &b) {
  Shape r(std::max(a.size(), b.size()));
  for (size_t k = 0; k < r.size(); ++k) { // k-th dimension from the right
    int x = k < a.size() ? a[a.size() - 1 - k] : -1;
    int y = k < b.size() ? b[b.size() - 1 - k] : -1;
    int &o = r[r.size() - 1 - k];
    if (x < 0)
      o = y;
    else if (y < 0)
      o = x;
    else if (x == y)
      o = x;
    else if (x == 1 && y != 0)
      o = y;
    else if (y == 1 && x != 0)
      o = x;
    else
      return {};
  }
  return r;
}
types promote(types a, types b) { return a > b ? a : b; }
num s_bin(Op op, types ta, num a, types tb, num b) {
  types r = promote(ta, tb);
  if (!isf(r)) {
    __int128 x = static_cast<std::int64_t>(a), y = static_cast<std::int64_t>(b),
             z = 0;
    switch (op) {
    case ADD:
      z = x + y;
      break;
    case SUB:
      z = x - y;
      break;
    case MUL:
      z = x * y;
      break;
    case DIV:
      z = x / y;
      break;
    }
    return convert(static_cast<num>(static_cast<std::int64_t>(z)), r);
  }
  if (r == INNC::f32) {
    float x = static_cast<float>(a), y = static_cast<float>(b), z = 0;
    switch (op) {
    case ADD:
      z = x + y;
      break;
    case SUB:
      z = x - y;
      break;
    case MUL:
      z = x * y;
      break;
    case DIV:
      z = x / y;
      break;
    }
    return z;
  }
  double x = static_cast<double>(a), y = static_cast<double>(b), z = 0;
  switch (op) {
  case ADD:
    z = x + y;
    break;
  case SUB:
    z = x - y;
    break;
  case MUL:
    z = x * y;
    break;
  case DIV:
    z = x / y;
    break;
  }
  return z;
}
bool s_cmp(Cmp op, types ta, num a, types tb, num b) {
  types r = promote(ta, tb);
  if (isf(r)) {
    a = convert(a, r);
    b = convert(b, r);
  }
  switch (op) {
  case LT:
    return a < b;
  case GT:
    return a > b;
  case LE:
    return a <= b;
  case GE:
    return a >= b;
  case EQ:
    return a == b;
  default:
    return a != b;
  }
}
static int bflat(const std::vector<int> &c, const Shape &s) {
  std::vector<int> x(s.size());
  for (size_t k = 0; k < s.size(); ++k)
    x[s.size() - 1 - k] = s[s.size() - 1 - k] == 1 ? 0 : c[c.size() - 1 - k];
  return flat(x, s);
}
MT m_bin(Op op, const MT &a, const MT &b) {
  Shape s = *bshape(a.shape, b.shape);
  std::vector<num> v;
  std::vector<Dual> d;
  bool rg = a.rg || b.rg;
  for (int i = 0; i < numel(s); ++i) {
    auto c = unflat(i, s);
    int fa = bflat(c, a.shape), fb = bflat(c, b.shape);
    num x = a.at(fa), y = b.at(fb);
    v.push_back(s_bin(op, a.dt, x, b.dt, y));
    if (rg) {
      double dx = 1, dy = 1, X = static_cast<double>(x),
             Y = static_cast<double>(y);
      switch (op) {
      case ADD:
        break;
      case SUB:
        dy = -1;
        break;
      case MUL:
        dx = Y;
        dy = X;
        break;
      case DIV:
        dx = 1 / Y;
        dy = -X / (Y * Y);
        if (std::fabs(Y) < 1e-6)
          tape.ambiguous = true;
        break;
      }
      if (!std::isfinite(dx) || !std::isfinite(dy))
        tape.ambiguous = true;
      Dual r;
      if (a.rg)
        axpy(r, dx, a.d[fa]);
      if (b.rg)
        axpy(r, dy, b.d[fb]);
      d.push_back(r);
    }
  }
  MT r = m_new(s, promote(a.dt, b.dt), v);
  r.d = d;
  finish(r, rg);
  return r;
}
MT m_cmp(Cmp op, const MT &a, const MT &b) {
  Shape s = *bshape(a.shape, b.shape);
  std::vector<num> v;
  for (int i = 0; i < numel(s); ++i) {
    auto c = unflat(i, s);
    v.push_back(s_cmp(op, a.dt, a.at(bflat(c, a.shape)), b.dt,
                      b.at(bflat(c, b.shape))));
  }
  return m_new(s, INNC::i8, v);
}
MT m_neg(const MT &t) {
  std::vector<num> v;
  std::vector<Dual> d;
  for (int i = 0; i < t.n(); ++i) {
    v.push_back(convert(-t.at(i), t.dt));
    if (t.rg) {
      Dual r;
      axpy(r, -1, t.d[i]);
      d.push_back(r);
    }
  }
  MT r = m_new(t.shape, t.dt, v);
  r.d = d;
  finish(r, t.rg);
  return r;
}
MT m_abs(const MT &t) {
  std::vector<num> v;
  std::vector<Dual> d;
  for (int i = 0; i < t.n(); ++i) {
    num x = t.at(i);
    v.push_back(convert(x < 0 ? -x : x, t.dt));
    if (t.rg) {
      Dual r;
      if (std::fabs(x) < 1e-6L)
        tape.ambiguous = true;
      axpy(r, x < 0 ? -1 : 1, t.d[i]);
      d.push_back(r);
    }
  }
  MT r = m_new(t.shape, t.dt, v);
  r.d = d;
  finish(r, t.rg);
  return r;
}

// ---------------------------------------------------------------- reductions
static MT scalar(types dt, num v, const Dual *d, bool rg) {
  MT r = m_new({}, dt, {v});
  if (rg) {
    r.d.assign(1, *d);
  }
  finish(r, rg);
  return r;
}
MT m_sum(const MT &t) {
  types dt = isf(t.dt) ? INNC::f64 : INNC::i64;
  num s = 0; // exact for the alphabets in use
  Dual d;
  for (int i = 0; i < t.n(); ++i) {
    s += t.at(i);
    if (t.rg)
      axpy(d, 1, t.d[i]);
  }
  return scalar(dt, convert(s, dt), &d, t.rg);
}
MT m_mean(const MT &t) {
  types dt = isf(t.dt) ? INNC::f64 : INNC::i64;
  num s = 0;
  Dual d;
  for (int i = 0; i < t.n(); ++i) {
    s += t.at(i);
    if (t.rg)
      axpy(d, 1.0 / t.n(), t.d[i]);
  }
  num r = isf(dt) ? static_cast<num>(static_cast<double>(s) / t.n())
                  : static_cast<num>(static_cast<std::int64_t>(s) / t.n());
  return scalar(dt, r, &d, t.rg);
}
static MT extreme(const MT &t, bool mx) {
  int k = 0;
  for (int i = 1; i < t.n(); ++i)
    if (mx ? t.at(i) > t.at(k) : t.at(i) < t.at(k))
      k = i;
  Dual d;
  if (t.rg) {
    axpy(d, 1, t.d[k]);
    for (int i = 0; i < t.n(); ++i)
      if (i != k && std::fabs(t.at(i) - t.at(k)) <=
                        1e-5L * (1 + std::fabs(t.at(k))))
        tape.ambiguous = true;
  }
  return scalar(t.dt, t.at(k), &d, t.rg);
}
MT m_max(const MT &t) { return extreme(t, true); }
MT m_min(const MT &t) { return extreme(t, false); }

MT m_cat(const std::vector<const MT *> &ts, int dim) {
  Shape s = ts[0]->shape;
  s[dim] = 0;
  types dt = ts[0]->dt;
  bool rg = false;
  for (auto t : ts) {
    s[dim] += t->shape[dim];
    dt = promote(dt, t->dt);
    rg |= t->rg;
  }
  std::vector<num> v;
  std::vector<Dual> d;
  for (int i = 0; i < numel(s); ++i) {
    auto c = unflat(i, s);
    size_t k = 0;
    while (c[dim] >= ts[k]->shape[dim])
      c[dim] -= ts[k++]->shape[dim];
    int f = flat(c, ts[k]->shape);
    v.push_back(convert(ts[k]->at(f), dt));
    if (rg) {
      Dual r;
      if (ts[k]->rg)
        axpy(r, 1, ts[k]->d[f]);
      d.push_back(r);
    }
  }
  MT r = m_new(s, dt, v);
  r.d = d;
  finish(r, rg);
  return r;
}

// -------------------------------------------------------------- library side
SizeVec sv(const Shape &s) {
  SizeVec r;
  for (int x : s)
    r.push_back(x);
  return r;
}
SignedVec gv(const Shape &s) {
  SignedVec r;
  for (int x : s)
    r.push_back(x);
  return r;
}
Tensor r_new(const Shape &s, types dt, const std::vector<num> &vals) {
  size_t n = vals.size();
  std::vector<unsigned char> b(n * tsize(dt) + 1);
  with_type(dt, [&](auto z) {
    using T = decltype(z);
    for (size_t i = 0; i < n; ++i) {
      T x = static_cast<T>(vals[i]);
      memcpy(b.data() + i * sizeof(T), &x, sizeof(T));
    }
    return 0;
  });
  return Tensor::from_blob(b.data(), sv(s), dt);
}
Tensor r_bin(Op op, const Tensor &a, const Tensor &b) {
  switch (op) {
  case ADD:
    return a + b;
  case SUB:
    return a - b;
  case MUL:
    return a * b;
  default:
    return a / b;
  }
}
Tensor r_cmp(Cmp op, const Tensor &a, const Tensor &b) {
  switch (op) {
  case LT:
    return a < b;
  case GT:
    return a > b;
  case LE:
    return a <= b;
  case GE:
    return a >= b;
  case EQ:
    return a == b;
  default:
    return a != b;
  }
}

namespace {
struct Parser {
  const std::string &s;
  size_t p = 0;
  const Shape &shape;
  bool fl;
  std::vector<num> &out;
  bool bad = false;
  void lit(const char *x) {
    size_t n = strlen(x);
    if (s.compare(p, n, x) != 0)
      bad = true;
    else
      p += n;
  }
  void go(size_t d) {
    if (bad)
      return;
    if (d == shape.size()) {
      const char *b = s.c_str() + p;
      char *e = nullptr;
      errno = 0;
      if (fl) {
        out.push_back(strtold(b, &e));
      } else
        out.push_back(static_cast<num>(strtoll(b, &e, 10)));
      if (e == b)
        bad = true;
      p += e - b;
      return;
    }
    lit("[");
    for (int i = 0; i < shape[d] && !bad; ++i) {
      if (i)
        lit(", ");
      go(d + 1);
    }
    lit("]");
  }
};
} // namespace

Obs observe(const Tensor &t) {
  Obs o;
  for (auto x : t.size()) {
    if (x > 1000000)
      fail("size() reports an absurd extent: " + t.size().to_string());
    o.shape.push_back(static_cast<int>(x));
  }
  o.dt = t.type();
  if (o.dt < 0 || o.dt >= INNC::Count)
    fail("type() reports no valid type");
  size_t want = numel(o.shape);
  if (t.numel() != want)
    fail(fmt("numel() is %zu for size %s", t.numel(), sstr(o.shape).c_str()));
  std::string s = t.to_string();
  Parser p{s, 0, o.shape, isf(o.dt), o.v};
  p.go(0);
  if (p.bad || p.p != s.size() || o.v.size() != want)
    fail("rendering does not match size " + sstr(o.shape) + ": " +
         s.substr(0, 300));
  return o;
}
bool same_num(num e, num g, types dt) {
  if (!isf(dt))
    return e == g;
  if (std::isnan(e) || std::isnan(g))
    return std::isnan(e) && std::isnan(g);
  if (std::isinf(e) || std::isinf(g))
    return e == g;
  // rendering keeps 6 decimals
  num rel = dt == INNC::f32 ? rel32 : rel64;
  return std::fabs(e - g) <=
         (rel > 0 ? 1.01e-6L : 0.51e-6L) + rel * std::fabs(e);
}
std::string nstr(const std::vector<num> &v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size() && i < 60; ++i)
    r += (i ? ", " : "") + fmt("%.6Lg", v[i]);
  if (v.size() > 60)
    r += ", ...";
  return r + "]";
}
static void cmp_obs(const Obs &o, types dt, const Shape &s,
                    const std::vector<num> &want, const char *what) {
  if (o.dt != dt)
    fail(fmt("%s: type is %s, expected %s", what, tname(o.dt), tname(dt)));
  if (o.shape != s)
    fail(fmt("%s: size is %s, expected %s", what, sstr(o.shape).c_str(),
             sstr(s).c_str()));
  for (size_t i = 0; i < want.size(); ++i)
    if (!same_num(want[i], o.v[i], dt))
      fail(fmt("%s: element %zu of %s %s is %.10Lg, expected %.10Lg\n"
               "   got      %s\n   expected %s",
               what, i, sstr(s).c_str(), tname(dt), o.v[i], want[i],
               nstr(o.v).c_str(), nstr(want).c_str()));
}
// Six decimals do not determine a floating value: ask the library itself, with
// an element-wise comparison against the expected bits.
static void cmp_exact(const Tensor &t, types dt, const Shape &s,
                      const std::vector<num> &want, const char *what) {
  if (!isf(dt) || want.empty() || (dt == INNC::f32 ? rel32 : rel64) > 0)
    return;
  Tensor eq = t == r_new(s, dt, want);
  std::string r = eq.to_string(), all1;
  size_t bad = want.size(), k = 0;
  for (char c : r)
    if (c == '0' || c == '1') {
      if (c == '0' && k < want.size() && !std::isnan(want[k]) && bad == want.size())
        bad = k;
      ++k;
    }
  if (k != want.size())
    fail(fmt("%s: == against the expected tensor renders as %s", what, r.substr(0, 300).c_str()));
  if (bad < want.size())
    fail(fmt("%s: element %zu of %s %s does not equal %.21Lg, though it renders alike", what, bad,
             sstr(s).c_str(), tname(dt), want[bad]));
}
void check(const Tensor &t, const MT &m, const char *what) {
  std::vector<num> want;
  want.reserve(m.n());
  for (int i = 0; i < m.n(); ++i)
    want.push_back(m.at(i));
  cmp_obs(observe(t), m.dt, m.shape, want, what);
  cmp_exact(t, m.dt, m.shape, want, what);
}
void check_flag(const Tensor &t, const MT &m, const char *what) {
  if (t.requires_grad() != m.rg)
    fail(fmt("%s: requires_grad() is %d, expected %d", what,
             t.requires_grad(), m.rg));
}
bool has_grad(const Tensor &t) { return t.grad().to_string() != "[]"; }
void check_grad(const Tensor &t, types dt, const Shape &s,
                const std::vector<num> &want, const char *what) {
  std::string r = t.grad().to_string();
  if (want.empty()) {
    if (numel(s) != 0 && r != "[]")
      fail(fmt("%s: grad() should be empty but is %s", what,
               r.substr(0, 300).c_str()));
    return;
  }
  bool zero = true;
  for (num w : want)
    zero &= w == 0;
  if (r == "[]" && zero)
    return; // never reached: no gradient stands for a zero gradient
  if (r == "[]")
    fail(fmt("%s: grad() is empty, expected %s", what, nstr(want).c_str()));
  cmp_obs(observe(t.grad()), dt, s, want, what);
}

uint64_t h_layout(const MT &m) {
  uint64_t h = hash_u64(1469598103934665603ull, m.dt);
  h = hash_bytes(h, m.shape.data(), m.shape.size() * sizeof(int));
  h = hash_bytes(h, m.idx.data(), m.idx.size() * sizeof(int));
  return hash_u64(h, m.buf ? m.buf->v.size() : 0);
}
uint64_t h_model(const MT &m) {
  uint64_t h = h_layout(m);
  for (int i = 0; i < m.n(); ++i) {
    double d = static_cast<double>(m.at(i));
    h = hash_bytes(h, &d, sizeof d);
  }
  return hash_u64(h, m.rg);
}

// ------------------------------------------------------------ layout gallery
static const char *lnames[N_LAYOUTS] = {
    "contiguous",
    "leading offset: base[1:-1]",
    "trailing offset: base[...,1:]",
    "step 2 in last dim: base[...,::2]",
    "reversed in all dims: base[::-1,...]",
    "transposed first/last",
    "transposed, offset, step -2 in dim 0",
    "indexed from a higher rank: base[1]",
    "indexed trailing dim: base[...,1]",
    "detached view (step -2, transposed)",
    "reshape of a strided view",
    "reshape of a flat tensor",
    "clone of a transposed view",
    "slice of a transposed slice"};
const char *layout_name(int k) { return lnames[k]; }

bool layout_ok(int k, const Shape &s) {
  switch (k) {
  case 1:
  case 2:
  case 3:
  case 4:
    return s.size() >= 1;
  case 5:
  case 6:
  case 9:
  case 12:
  case 13:
    return s.size() >= 2;
  default:
    return true;
  }
}

static num poison(int i, types dt) {
  num big = dt == INNC::i8 ? 120 : 9000;
  return (i % 2 ? -1 : 1) * (big - i % 7 - (world ? 9 : 0));
}

// fill the elements selected by the view m (over its buffer) with vals
static void put(MT &m, const std::vector<num> &vals) {
  for (int i = 0; i < m.n(); ++i)
    m.buf->v[m.idx[i]] = vals[i];
}

static Pair layout_impl(int k, const Shape &s, types dt,
                        const std::vector<num> &vals, Pair *rg_base) {
  auto base = [&](const Shape &bs) {
    std::vector<num> v;
    for (int i = 0; i < numel(bs); ++i)
      v.push_back(poison(i, dt));
    return m_new(bs, dt, v);
  };
  size_t r = s.size();
  // view recipe: base shape, then a list of steps
  struct Step {
    int kind; // 0 slice, 1 transpose first/last, 2 reshape to s (share),
              // 3 reshape to s (copy), 4 detach, 5 clone
    std::vector<Sl> sls;
  };
  Shape bs = s;
  std::vector<Step> steps;
  switch (k) {
  case 0:
    break;
  case 1:
    bs[0] += 2;
    steps.push_back({0, {sl(1, s[0] + 1)}});
    break;
  case 2: {
    bs[r - 1] += 1;
    std::vector<Sl> x(r, sl());
    x[r - 1] = sl(1);
    steps.push_back({0, x});
    break;
  }
  case 3: {
    bs[r - 1] = bs[r - 1] * 2;
    std::vector<Sl> x(r, sl());
    x[r - 1] = sl({}, {}, 2);
    steps.push_back({0, x});
    break;
  }
  case 4:
    steps.push_back({0, std::vector<Sl>(r, sl({}, {}, -1))});
    break;
  case 5:
    std::swap(bs[0], bs[r - 1]);
    steps.push_back({1, {}});
    break;
  case 6:
  case 9: {
    // after transposing, dim 0 has extent 2*s[0]+1; take every second one
    // backwards starting at the last but one
    bs = s;
    bs[0] = 2 * s[0] + 1;
    std::swap(bs[0], bs[r - 1]);
    steps.push_back({1, {}});
    steps.push_back({0, {sl(-2, {}, -2)}});
    if (k == 9)
      steps.push_back({4, {}});
    break;
  }
  case 7:
    bs.insert(bs.begin(), 3);
    steps.push_back({0, {sl_i(1)}});
    break;
  case 8: {
    bs.push_back(2);
    std::vector<Sl> x(r, sl());
    x.push_back(sl_i(1));
    steps.push_back({0, x});
    break;
  }
  case 10: {
    bs = {numel(s), 2};
    steps.push_back({0, {sl(), sl(0, 1)}});
    steps.push_back({3, {}});
    break;
  }
  case 11:
    bs = {numel(s)};
    steps.push_back({2, {}});
    break;
  case 12:
    std::swap(bs[0], bs[r - 1]);
    steps.push_back({1, {}});
    steps.push_back({5, {}});
    break;
  case 13: {
    // base -> drop first row -> transpose -> drop last of dim 0, reverse it
    bs[0] += 1;
    std::swap(bs[0], bs[r - 1]);
    bs[0] += 1;
    steps.push_back({0, {sl(1)}});
    steps.push_back({1, {}});
    steps.push_back({0, {sl(-2, {}, -1)}});
    break;
  }
  }
  // The model view decides which storage positions hold the values.
  MT mb = base(bs), m = mb;
  for (auto &st : steps) {
    if (st.kind == 0)
      m = *m_slice(m, st.sls);
    else if (st.kind == 1)
      m = m_transpose(m, 0, static_cast<int>(m.shape.size()) - 1);
    else if (st.kind == 2 || st.kind == 3)
      m = m_reshape(m, s, true);
  }
  put(m, vals);
  if (rg_base) {
    *rg_base = q_new(bs, dt, mb.buf->v, true);
    Pair v = q_handle(*rg_base);
    for (auto &st : steps) {
      if (st.kind == 0)
        v = q_slice(v, st.sls);
      else if (st.kind == 1)
        v = q_transpose(v, 0, static_cast<int>(v.m.shape.size()) - 1);
      else if (st.kind == 2 || st.kind == 3)
        v = q_reshape(v, s);
      else if (st.kind == 5)
        v = q_clone(v);
    }
    return v;
  }
  // k==3: base[...,::2] has ceil(2n/2) = n elements, fine for every n
  Tensor t = r_new(bs, dt, mb.buf->v);
  LOG("t = %s %s, layout: %s, values %s", sstr(s).c_str(), tname(dt),
      lnames[k], nstr(vals).c_str());
  for (auto &st : steps) {
    if (st.kind == 0)
      t = t[slstr(st.sls)];
    else if (st.kind == 1)
      t = t.transpose(0, t.size().size() - 1);
    else if (st.kind == 2 || st.kind == 3)
      t = t.reshape(gv(s));
    else if (st.kind == 4)
      t = t.detach();
    else
      t = t.clone();
  }
  bool copied = false;
  for (auto &st : steps)
    copied |= st.kind == 3 || st.kind == 5;
  if (copied)
    m = m_copy(m);
  return {std::move(t), m};
}

Pair make_layout(int k, const Shape &s, types dt,
                 const std::vector<num> &vals) {
  return layout_impl(k, s, dt, vals, nullptr);
}
Pair make_layout_rg(int k, const Shape &s, types dt,
                    const std::vector<num> &vals, Pair &base) {
  return layout_impl(k, s, dt, vals, &base);
}
void q_require(Pair &p) {
  p.t.requires_grad(true);
  m_require(p.m);
  LOG("%s.requires_grad(true)", sstr(p.m.shape).c_str());
}

std::vector<num> iota_vals(int n, types dt, int salt) {
  // distinct for small n, both signs, no zero, exact in every dtype
  std::vector<num> v;
  for (int i = 0; i < n; ++i) {
    int k = (i * 7 + salt * 3) % 61 + 1;
    num x = (i + salt) % 2 ? -k : k;
    v.push_back(isf(dt) ? x / 4 : x);
  }
  return v;
}

std::vector<num> edge_vals(types dt) {
  switch (dt) {
  case INNC::i8:
    return {0, 1, -1, 2, 7, -100, 127, -128};
  case INNC::i16:
    return {0, 1, -1, 3, 256, -300, 32767, -32768};
  case INNC::i32:
    return {0, 1, -1, 256, 65536, 16777217, 2147483647, -2147483648LL};
  case INNC::i64:
    return {0,
            1,
            -1,
            4294967296LL,
            -16777217LL,
            9007199254740993LL,
            std::numeric_limits<std::int64_t>::max(),
            std::numeric_limits<std::int64_t>::min()};
  case INNC::f32:
    return {0,
            1,
            -1,
            0.5L,
            -2.75L,
            16777216,
            -8388607.5L,
            static_cast<num>(-0.0f),
            static_cast<num>(0.1f), // not visible in six decimals from here on
            static_cast<num>(-1.00000012f),
            static_cast<num>(1e-30f),
            static_cast<num>(-1e-41f),
            static_cast<num>(std::numeric_limits<float>::max()),
            std::numeric_limits<num>::infinity(),
            std::numeric_limits<num>::quiet_NaN()};
  default:
    return {0,
            1,
            -1,
            0.5L,
            -2.75L,
            16777217,
            9007199254740991LL,
            -4503599627370495.5L,
            static_cast<num>(-0.0),
            static_cast<num>(0.1), // not visible in six decimals from here on
            static_cast<num>(-1 - std::numeric_limits<double>::epsilon()),
            static_cast<num>(1e-30),
            static_cast<num>(-1e-320),
            static_cast<num>(std::numeric_limits<double>::max()),
            -std::numeric_limits<num>::infinity(),
            std::numeric_limits<num>::quiet_NaN()};
  }
}
bool fits(num v, types dt) {
  if (isf(dt))
    return true;
  if (!std::isfinite(v))
    return false;
  num t = std::trunc(v);
  num lim = std::pow(2.0L, static_cast<num>(8 * tsize(dt) - 1));
  return t >= -lim && t < lim;
}
std::vector<num> bit_vals(types dt) {
  std::vector<num> r{0};
  int mant = dt == INNC::f32 ? 24 : dt == INNC::f64 ? 53 : static_cast<int>(8 * tsize(dt)) - 1;
  for (int k = 0; k <= mant; ++k)
    for (int d = -1; d <= 1; ++d)
      for (int sg : {1, -1}) {
        num v = sg * (std::pow(2.0L, static_cast<num>(k)) + d);
        if (v != 0 && (isf(dt) ? convert(v, dt) == v : fits(v, dt)))
          r.push_back(v);
      }
  if (dt == INNC::i64) // rounding to f32 in one step or in two differs here
    for (int k = 54; k <= 62; ++k)
      for (int sg : {1, -1}) {
        r.push_back(sg * (std::pow(2.0L, k) + std::pow(2.0L, k - 24) + 1));
        r.push_back(sg * (std::pow(2.0L, k) + 3 * std::pow(2.0L, k - 24) - 1));
      }
  if (isf(dt))
    for (int k = 1; k <= 5; ++k) { // fractions that six decimals show exactly
      r.push_back(std::pow(2.0L, static_cast<num>(-k)));
      r.push_back(-std::pow(2.0L, static_cast<num>(-k)) - 3);
    }
  return r;
}
std::vector<num> dense_vals(types dt) {
  std::vector<num> r;
  if (!isf(dt))
    for (int i = -128; i < 128; ++i)
      r.push_back(i);
  else
    for (int i = 0; i < 256; ++i) {
      int e = i / 8 % 16, m = i % 8;
      num v = e ? (1 + m / 8.0L) * std::pow(2.0L, e - 7) : m / 8.0L * std::pow(2.0L, -6);
      r.push_back(i >= 128 ? -v : v);
    }
  return r;
}
const std::vector<int> &line_sizes() {
  static const std::vector<int> v = [] {
    std::vector<int> r;
    for (int i = 0; i <= (is_thorough() ? 300 : 40); ++i)
      r.push_back(i);
    for (int p = 64; p <= (is_thorough() ? 65536 : 4096); p *= 2)
      for (int d = -1; d <= 1; ++d)
        if (p + d > r.back())
          r.push_back(p + d);
    for (int x : {50, 100, 200, 1000, 5000, 10000})
      r.push_back(x);
    if (is_asan() && !is_thorough())
      return r;
    if (!is_thorough())
      for (int x : {32769, 65536, 65537})
        r.push_back(x);
    r.push_back(100003);
    return r;
  }();
  return v;
}
const std::vector<Shape> &wide_shapes() {
  static const std::vector<Shape> v = [] {
    std::vector<Shape> r;
    const std::vector<int> e = {1, 2, 3, 5, 8, 9, 16, 17, 33};
    for (int a : e)
      for (int b : e)
        r.push_back({a, b});
    for (int a : {1, 2, 4, 7})
      for (int b : {1, 3, 9})
        for (int c : {1, 2, 5, 16})
          r.push_back({a, b, c});
    r.push_back({64, 3});
    r.push_back({3, 65});
    r.push_back({100, 10});
    r.push_back({4, 4, 4, 4});
    r.push_back({3, 1, 4, 1, 5});
    r.push_back({2, 3, 1, 2, 3});
    for (auto &s : shapes(4, is_thorough() ? 7 : 5, {1, 2}))
      r.push_back(s);
    for (auto &s : shapes(4, 4, {2, 3}))
      r.push_back(s);
    r.push_back({2, 2, 2, 2, 2, 2});
    r.push_back({2, 1, 2, 1, 2, 1, 2});
    r.push_back({1, 1, 1, 1, 1, 1, 1, 1});
    // long rows and columns, and ranks past any small fixed-size index array
    for (auto &s : std::vector<Shape>{{2, 1025}, {1025, 2}, {2, 300, 2}, {257, 129}})
      if (numel(s) < 5000 || !is_asan() || is_thorough())
        r.push_back(s);
    r.push_back(Shape(8, 2));
    for (int k : {9, 10, 16, 17, 33, 65}) {
      Shape h(k, 1);
      h[0] = 2;
      h[k / 2] = 3;
      h[k - 1] = 2;
      r.push_back(h);
    }
    r.push_back({0, 3});
    r.push_back({3, 0});
    r.push_back({2, 0, 2});
    r.push_back({2, 3, 0, 1, 2});
    return r;
  }();
  return v;
}

// ------------------------------------------------------------ both sides
static int q_id(const MT &m) { return m.seed0; }
static std::string q_name(const Pair &p) {
  return sstr(p.m.shape) + tname(p.m.dt) +
         (q_id(p.m) >= 0 ? fmt("#%d", q_id(p.m)) : "");
}
Pair q_new(const Shape &s, types dt, const std::vector<num> &v, bool rg) {
  Pair p{r_new(s, dt, v), m_new(s, dt, v)};
  if (rg) {
    p.t.requires_grad(true);
    m_require(p.m);
  }
  LOG("new %s%s = %s", q_name(p).c_str(), rg ? " requires_grad" : "",
      nstr(v).c_str());
  return p;
}
#define Q_DONE(text, ...)                                                      \
  LOG("%s = " text, q_name(r).c_str(), __VA_ARGS__);                           \
  return r
Pair q_bin(Op op, const Pair &a, const Pair &b) {
  LOG("  %s %s %s", q_name(a).c_str(), op_str[op], q_name(b).c_str());
  Pair r{r_bin(op, a.t, b.t), m_bin(op, a.m, b.m)};
  Q_DONE("%s %s %s", q_name(a).c_str(), op_str[op], q_name(b).c_str());
}
Pair q_neg(Pair &a) {
  Pair r{-a.t, m_neg(a.m)};
  Q_DONE("-%s", q_name(a).c_str());
}
Pair q_abs(const Pair &a) {
  Pair r{a.t.abs(), m_abs(a.m)};
  Q_DONE("abs %s", q_name(a).c_str());
}
Pair q_sum(const Pair &a) {
  Pair r{a.t.sum(), m_sum(a.m)};
  Q_DONE("sum %s", q_name(a).c_str());
}
Pair q_mean(const Pair &a) {
  Pair r{a.t.mean(), m_mean(a.m)};
  Q_DONE("mean %s", q_name(a).c_str());
}
Pair q_max(const Pair &a) {
  Pair r{a.t.max(), m_max(a.m)};
  Q_DONE("max %s", q_name(a).c_str());
}
Pair q_min(const Pair &a) {
  Pair r{a.t.min(), m_min(a.m)};
  Q_DONE("min %s", q_name(a).c_str());
}
Pair q_slice(Pair &a, const std::vector<Sl> &v) {
  LOG("  %s[\"%s\"]", q_name(a).c_str(), slstr(v).c_str());
  Pair r{a.t[slstr(v)], *m_slice(a.m, v)};
  Q_DONE("%s[\"%s\"]", q_name(a).c_str(), slstr(v).c_str());
}
Pair q_transpose(Pair &a, int x, int y) {
  Pair r{a.t.transpose(x, y), m_transpose(a.m, x, y)};
  Q_DONE("%s.transpose(%d,%d)", q_name(a).c_str(), x, y);
}
Pair q_reshape(Pair &a, const Shape &s) {
  LOG("  %s.reshape(%s)", q_name(a).c_str(), sstr(s).c_str());
  Pair r{a.t.reshape(gv(s)), m_reshape(a.m, s, true)};
  Q_DONE("%s.reshape(%s)", q_name(a).c_str(), sstr(s).c_str());
}
Pair q_clone(const Pair &a) {
  Pair r{a.t.clone(), m_copy(a.m)};
  Q_DONE("%s.clone()", q_name(a).c_str());
}
Pair q_contiguous(const Pair &a) {
  Pair r{a.t.contiguous(), m_copy(a.m)};
  Q_DONE("%s.contiguous()", q_name(a).c_str());
}
Pair q_cast(Pair &a, types dt) {
  Pair r{a.t.type(dt), m_cast(a.m, dt)};
  Q_DONE("%s.type(%s)", q_name(a).c_str(), tname(dt));
}
Pair q_detach(const Pair &a) {
  Pair r{a.t.detach(), m_detach(a.m)};
  Q_DONE("%s.detach()", q_name(a).c_str());
}
Pair q_cat(const std::vector<Pair *> &v, int dim) {
  std::vector<Tensor> ts;
  std::vector<const MT *> ms;
  std::string names;
  for (auto p : v) {
    ts.emplace_back();
    ts.back() = p->t;
    ms.push_back(&p->m);
    names += q_name(*p) + " ";
  }
  LOG("  cat(%s, %d)", names.c_str(), dim);
  Pair r{Tensor::cat(ts, dim), m_cat(ms, dim)};
  Q_DONE("cat(%s, %d)", names.c_str(), dim);
}
Pair q_handle(const Pair &a) {
  Pair r;
  r.t = a.t;
  r.m = a.m;
  return r;
}
void check(const Pair &p, const char *what) { check(p.t, p.m, what); }
void q_check_grad(const Pair &root, const Pair &t, const char *what) {
  std::vector<num> want;
  if (t.m.rg)
    want = m_grad(root.m, t.m);
  check_grad(t.t, t.m.dt, t.m.shape, want, what);
}
} // namespace mc
