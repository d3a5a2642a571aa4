// Reference model: a tensor is a list of storage positions, nothing more.
// Every operation is written from its definition (Python slicing, NumPy
// broadcasting, row-major order, forward-mode derivatives) and shares no code
// and no algorithm with the library.  The library is observed only through its
// public API.
#pragma once
#include "INNC/INNC.hpp"
#include "engine.hpp"
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace mc {
using INNC::SignedVec;
using INNC::SizeVec;
using INNC::Tensor;
using INNC::types;
using num = long double; // exact for every i64 and every double
using ll = long long;
using Shape = std::vector<int>;

inline const std::vector<types> ALL_TYPES = {INNC::i8,  INNC::i16, INNC::i32,
                                             INNC::i64, INNC::f32, INNC::f64};
inline bool isf(types t) { return t == INNC::f32 || t == INNC::f64; }
const char *tname(types t);
size_t tsize(types t);
std::string sstr(const Shape &s);
int numel(const Shape &s);
// all shapes with rank in [rlo, rhi] and extents from ext
std::vector<Shape> shapes(int rlo, int rhi, const std::vector<int> &ext);

num convert(num v, types to); // C++ conversion of an in-range value / int wrap

using Dual = std::vector<double>; // derivative wrt every seed allocated so far

struct Buf {
  std::vector<num> v;
};
struct MT { // model tensor
  std::shared_ptr<Buf> buf;
  types dt = INNC::i8;
  Shape shape;
  std::vector<int> idx; // storage position of each element, row-major
  // autograd
  bool rg = false;      // requires grad
  bool leaf = true;
  int seed0 = -1;       // first seed of this tensor
  std::vector<Dual> d;  // derivative of each element
  int n() const { return static_cast<int>(idx.size()); }
  num at(int i) const { return buf->v[idx[i]]; }
};

// The tape only hands out seeds; derivatives are propagated forward.
struct Tape {
  int nseeds = 0;
  bool ambiguous = false; // a derivative was taken where it is not unique
                          // (abs at 0, tied extreme) or not finite
  void reset() {
    nseeds = 0;
    ambiguous = false;
  }
};
extern Tape tape;

// Relative tolerances of a comparison (on top of the 6 rendered decimals).
extern num rel32, rel64;
struct Tol {
  num a = rel32, b = rel64;
  Tol(num x, num y) {
    rel32 = x;
    rel64 = y;
  }
  ~Tol() {
    rel32 = a;
    rel64 = b;
  }
};

MT m_new(const Shape &s, types dt, const std::vector<num> &vals);
void m_require(MT &t); // make it a leaf that requires grad

struct Sl { // one dimension of a slice expression
  bool index = false;
  ll i = 0;
  std::optional<ll> b, e, s;
  std::string str() const;
};
inline Sl sl_i(ll i) {
  Sl s;
  s.index = true;
  s.i = i;
  return s;
}
inline Sl sl(std::optional<ll> b = {}, std::optional<ll> e = {},
             std::optional<ll> st = {}) {
  Sl s;
  s.b = b;
  s.e = e;
  s.s = st;
  return s;
}
std::string slstr(const std::vector<Sl> &v);
// Python semantics; nullopt when an index is out of range or step is 0
std::optional<std::vector<int>> py_slice(int n, const Sl &s);
std::optional<MT> m_slice(const MT &t, const std::vector<Sl> &v);
MT m_transpose(const MT &t, int a, int b);
MT m_reshape(const MT &t, const Shape &s, bool share);
MT m_copy(const MT &t);
MT m_cast(const MT &t, types dt);
MT m_detach(const MT &t);
enum Op { ADD, SUB, MUL, DIV };
enum Cmp { LT, GT, LE, GE, EQ, NE };
extern const char *op_str[];
extern const char *cmp_str[];
std::optional<Shape> bshape(const Shape &a, const Shape &b);
types promote(types a, types b);
num s_bin(Op op, types ta, num a, types tb, num b); // result in promote()
bool s_cmp(Cmp op, types ta, num a, types tb, num b);
MT m_bin(Op op, const MT &a, const MT &b);
MT m_cmp(Cmp op, const MT &a, const MT &b);
MT m_neg(const MT &t);
MT m_abs(const MT &t);
MT m_sum(const MT &t);
MT m_mean(const MT &t);
MT m_max(const MT &t);
MT m_min(const MT &t);
MT m_cat(const std::vector<const MT *> &ts, int dim);
// gradient of the one-element tensor root with respect to t
std::vector<num> m_grad(const MT &root, const MT &t);

// ------------------------------------------------------------ library side
SizeVec sv(const Shape &s);
SignedVec gv(const Shape &s);
Tensor r_new(const Shape &s, types dt, const std::vector<num> &vals);
Tensor r_bin(Op op, const Tensor &a, const Tensor &b);
Tensor r_cmp(Cmp op, const Tensor &a, const Tensor &b);

struct Obs { // everything a user can see of a tensor's value
  Shape shape;
  types dt;
  std::vector<num> v;
};
Obs observe(const Tensor &t); // fails when metadata and rendering disagree
bool same_num(num expect, num got, types dt);
std::string nstr(const std::vector<num> &v);
// Compare the library's tensor with the model's. what: context for messages.
void check(const Tensor &t, const MT &m, const char *what);
void check_flag(const Tensor &t, const MT &m, const char *what);
// gradient presence and value; want empty => grad() must be empty
void check_grad(const Tensor &t, types dt, const Shape &s,
                const std::vector<num> &want, const char *what);
bool has_grad(const Tensor &t); // grad() renders to something

uint64_t h_model(const MT &m);  // canonical hash: dtype, shape, positions, values
uint64_t h_layout(const MT &m); // dtype, shape, positions

// ------------------------------------------------------------ layout gallery
// Ways of obtaining a tensor of a given logical shape with different memory
// layouts.  Storage not belonging to the view is filled with poison.
constexpr int N_LAYOUTS = 14;
const char *layout_name(int k);
bool layout_ok(int k, const Shape &s);
struct Pair {
  Tensor t;
  MT m;
};
Pair make_layout(int k, const Shape &s, types dt, const std::vector<num> &vals);
// The same layouts, differentiable: the base requires grad and the view is
// derived from it (layout 9, a detached view, is 6 here).
Pair make_layout_rg(int k, const Shape &s, types dt,
                    const std::vector<num> &vals, Pair &base);
void q_require(Pair &p);
std::vector<num> iota_vals(int n, types dt, int salt = 0); // distinct, dyadic

std::vector<num> edge_vals(types dt);  // extremes, zero, small, special
bool fits(num v, types dt);            // conversion to dt is in range
std::vector<num> bit_vals(types dt);   // +-2^k, +-2^k+-1 for every k dt can hold
std::vector<num> dense_vals(types dt); // 256 values: -128..127, or sign x 4 exponent x 3 mantissa bits
const std::vector<int> &line_sizes();  // 1-D extents: all small, then boundaries
const std::vector<Shape> &wide_shapes(); // 2-D/3-D larger and rank 4..7

// ---------------------------------------------------- both sides at once
// Each runs one operation on the library and on the model and logs it.
Pair q_new(const Shape &s, types dt, const std::vector<num> &v, bool rg = false);
Pair q_bin(Op op, const Pair &a, const Pair &b);
Pair q_neg(Pair &a);
Pair q_abs(const Pair &a);
Pair q_sum(const Pair &a);
Pair q_mean(const Pair &a);
Pair q_max(const Pair &a);
Pair q_min(const Pair &a);
Pair q_slice(Pair &a, const std::vector<Sl> &v);
Pair q_transpose(Pair &a, int x, int y);
Pair q_reshape(Pair &a, const Shape &s);
Pair q_clone(const Pair &a);
Pair q_contiguous(const Pair &a);
Pair q_cast(Pair &a, types dt);
Pair q_detach(const Pair &a);
Pair q_cat(const std::vector<Pair *> &v, int dim);
Pair q_handle(const Pair &a); // a second handle to the same tensor
void check(const Pair &p, const char *what);
// after root.backward(): t's accumulated gradient must be m_grad(root, t)
void q_check_grad(const Pair &root, const Pair &t, const char *what);

// expects the call to throw an exception derived from std::exception
template <typename F> bool throws(F f) {
  try {
    f();
  } catch (Violation &) {
    throw;
  } catch (std::exception &) {
    return true;
  }
  return false;
}
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
} // namespace mc
