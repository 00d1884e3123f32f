// Workload and oracle for the tabulation shim (real qugar_basix_shim.cpp,
// instrumented; real libbasix, uninstrumented).
#include <basix/finite-element.h>

#include "rt.h"
#include "server.h"
#include "libcalls.h"

#include <array>
#include <cmath>
#include <map>
#include <optional>
#include <set>
#include <span>

extern "C" {
int qugar_register_element_f64(int, int, int, int, int, int);
int qugar_register_element_f32(int, int, int, int, int, int);
int qugar_tabulate_shape_f64(int, int, int, long *);
int qugar_tabulate_shape_f32(int, int, int, long *);
int qugar_tabulate_f64(int, int, const double *, int, int, double *, long);
int qugar_tabulate_f32(int, int, const float *, int, int, float *, long);
double *qugar_get_scratch_f64(long);
float *qugar_get_scratch_f32(long);
int qugar_registry_size_f64();
int qugar_registry_size_f32();
void qugar_shim_reset();
}

namespace {
template<typename T> struct Api;
template<> struct Api<double>
{
  static int reg(const std::array<int, 6> &k) { return qugar_register_element_f64(k[0], k[1], k[2], k[3], k[4], k[5]); }
  static int shape(int h, int nd, int np, long *o) { return qugar_tabulate_shape_f64(h, nd, np, o); }
  static int tab(int h, int nd, const double *x, int np, int g, double *b, long c) { return qugar_tabulate_f64(h, nd, x, np, g, b, c); }
  static double *scratch(long n) { return qugar_get_scratch_f64(n); }
  static int size() { return qugar_registry_size_f64(); }
};
template<> struct Api<float>
{
  static int reg(const std::array<int, 6> &k) { return qugar_register_element_f32(k[0], k[1], k[2], k[3], k[4], k[5]); }
  static int shape(int h, int nd, int np, long *o) { return qugar_tabulate_shape_f32(h, nd, np, o); }
  static int tab(int h, int nd, const float *x, int np, int g, float *b, long c) { return qugar_tabulate_f32(h, nd, x, np, g, b, c); }
  static float *scratch(long n) { return qugar_get_scratch_f32(n); }
  static int size() { return qugar_registry_size_f32(); }
};

using F = basix::element::family;
using C = basix::cell::type;
using L = basix::element::lagrange_variant;
using D = basix::element::dpc_variant;
std::array<int, 6> K(F f, C c, int d, L l, D v, bool disc)
{
  return { int(f), int(c), d, int(l), int(v), int(disc) };
}
// Pairs differ in exactly one parameter each.
const std::vector<std::array<int, 6>> VALID = {
  K(F::P, C::triangle, 1, L::gll_warped, D::unset, false),
  K(F::P, C::triangle, 2, L::gll_warped, D::unset, false),
  K(F::P, C::quadrilateral, 2, L::gll_warped, D::unset, false),
  K(F::P, C::quadrilateral, 1, L::gll_warped, D::unset, false),
  K(F::P, C::triangle, 3, L::gll_warped, D::unset, false),
  K(F::P, C::triangle, 3, L::equispaced, D::unset, false),
  K(F::P, C::triangle, 2, L::gll_warped, D::unset, true),
  K(F::P, C::triangle, 3, L::gll_warped, D::unset, true),
  K(F::P, C::triangle, 3, L::legendre, D::unset, true),
  K(F::RT, C::triangle, 1, L::legendre, D::unset, false),
  K(F::RT, C::triangle, 1, L::legendre, D::unset, true),
  K(F::RT, C::triangle, 2, L::legendre, D::unset, false),
  K(F::RT, C::triangle, 2, L::equispaced, D::unset, false),
  K(F::N1E, C::triangle, 1, L::legendre, D::unset, false),
  K(F::P, C::tetrahedron, 1, L::gll_warped, D::unset, false),
  K(F::P, C::tetrahedron, 2, L::gll_warped, D::unset, false),
  K(F::P, C::hexahedron, 1, L::gll_warped, D::unset, false),
  K(F::DPC, C::quadrilateral, 2, L::unset, D::diagonal_gll, true),
  K(F::DPC, C::quadrilateral, 2, L::unset, D::simplex_equispaced, true),
  K(F::DPC, C::quadrilateral, 2, L::unset, D::legendre, true),
  K(F::serendipity, C::quadrilateral, 3, L::legendre, D::legendre, false),
  K(F::serendipity, C::quadrilateral, 3, L::legendre, D::simplex_equispaced, false),
  K(F::serendipity, C::quadrilateral, 3, L::equispaced, D::legendre, false),
  K(F::P, C::interval, 2, L::gll_warped, D::unset, false),
  K(F::P, C::interval, 1, L::gll_warped, D::unset, false),
  K(F::P, C::interval, 2, L::bernstein, D::unset, false),
  K(F::P, C::prism, 1, L::gll_warped, D::unset, false),
  K(F::P, C::pyramid, 1, L::gll_warped, D::unset, false),
  K(F::bubble, C::triangle, 3, L::unset, D::unset, false),
  K(F::CR, C::triangle, 1, L::unset, D::unset, false),
  K(F::iso, C::triangle, 2, L::gll_warped, D::unset, false),
  K(F::RT, C::quadrilateral, 1, L::legendre, D::unset, false),
  K(F::N1E, C::tetrahedron, 1, L::legendre, D::unset, false),
  K(F::Regge, C::triangle, 0, L::unset, D::unset, false),
};
const std::vector<std::array<int, 6>> INVALID = {
  { 999, 2, 1, 0, 0, 0 },
  { int(F::P), int(C::triangle), -1, int(L::gll_warped), 0, 0 },
  { int(F::RT), int(C::triangle), 0, int(L::legendre), 0, 0 },
  { int(F::P), int(C::triangle), 3, int(L::unset), 0, 0 },
  { int(F::P), int(C::triangle), 2, int(L::legendre), 0, 0 },
  { int(F::DPC), int(C::triangle), 1, int(L::gll_warped), 0, 1 },
};
int gdim_of(const std::array<int, 6> &k)
{
  return int(basix::cell::topological_dimension(C(k[1])));
}
constexpr int NP[3] = { 1, 2, 33 };
template<typename T> std::vector<T> points(int np, int g)
{
  std::vector<T> x;
  for (int i = 0; i < np * g; ++i) x.push_back(T(0.03 + 0.27 * ((i * 7 + 3) % 11) / 11.0));
  return x;
}
template<typename T> struct Ref
{
  std::array<std::size_t, 4> shape;
  std::vector<T> v;
};
template<typename T> std::map<std::array<int, 3>, Ref<T>> &refs()
{
  static std::map<std::array<int, 3>, Ref<T>> r;
  return r;
}
template<typename T> void make_refs()
{
  for (int k = 0; k < int(VALID.size()); ++k) {
    auto &p = VALID[k];
    auto el = basix::create_element<T>(F(p[0]), C(p[1]), p[2], L(p[3]), D(p[4]), bool(p[5]));
    int g = gdim_of(p);
    for (int nd = 0; nd < 3; ++nd)
      for (int q = 0; q < 3; ++q) {
        auto x = points<T>(NP[q], g);
        auto [v, s] = el.tabulate(nd, std::span<const T>(x), { std::size_t(NP[q]), std::size_t(g) });
        refs<T>()[{ k, nd, q }] = Ref<T>{ s, v };
      }
  }
}

// ------------------------------------------------------------------ the model
struct Model
{
  std::map<int, int> handle;            // key -> handle of a completed registration
  std::set<int> started, done;          // keys
  std::map<int, int> failed;            // keys with a failed attempt, for the retry check
};
Model model[2];

template<typename T> constexpr int TI = sizeof(T) == 8 ? 0 : 1;

struct Op
{
  char kind;
  int ty, key, a, b, c;
  double p;
  long n0, n1;
};

template<typename FN> auto call(const Op &op, int &failed, FN fn)
{
  using R = decltype(fn());
  struct { R r; bool threw = false; } o{};
  rt::Arm a;
  a.p = op.p;
  a.nth[0] = op.n0;
  a.nth[1] = op.n1;
  rt::yield("call");
  rt::arm(a);
  try {
    rt::Under u;
    o.r = fn();
  } catch (...) {
    o.threw = true;
  }
  failed = rt::disarm();
  if (o.threw) rt::violation("exception-escaped", std::string("an exception crossed the C boundary in op ") + op.kind);
  return o.r;
}

template<typename T> void do_register(const Op &op, std::map<int, int> &known)
{
  const bool valid = op.key < int(VALID.size());
  const auto &k = valid ? VALID[op.key] : INVALID[op.key - int(VALID.size())];
  Model &m = model[TI<T>];
  if (valid) m.started.insert(op.key);
  const bool had = m.handle.count(op.key);
  int failed = 0;
  int h = call(op, failed, [&] { return Api<T>::reg(k); });
  rt::log("register<%zu> key %d -> %d", sizeof(T), op.key, h);
  if (!valid) {
    if (h >= 0) rt::violation("invalid-accepted", "parameters the element library rejects gave handle " + std::to_string(h));
    rt::probe("invalid-params");
    return;
  }
  if (h < 0) {
    if (!failed) rt::violation("register-failed", "valid parameters were rejected with " + std::to_string(h) + " though nothing failed");
    else if (had) rt::violation("retry-failed", "registering an element that already exists failed");
    rt::probe("register-failed");
    return;
  }
  if (auto it = m.handle.find(op.key); it != m.handle.end() && it->second != h)
    rt::violation("handle-unstable", "the same parameters gave handle " + std::to_string(it->second) + " and then " + std::to_string(h));
  for (auto &[k2, h2] : m.handle)
    if (k2 != op.key && h2 == h)
      rt::violation("handle-shared", "two different elements share handle " + std::to_string(h));
  m.handle[op.key] = h;
  m.done.insert(op.key);
  known[op.key] = h;
  rt::probe("registered");
}

template<typename T> void do_shape(const Op &op, std::map<int, int> &known)
{
  if (!known.count(op.key)) return;
  int failed = 0;
  long *out = static_cast<long *>(rt::talloc(4 * sizeof(long), true));
  int rc = call(op, failed, [&] { return Api<T>::shape(known[op.key], op.a, NP[op.b], out); });
  const auto &r = refs<T>()[{ op.key, op.a, op.b }];
  rt::check_redzones(out, "shape");
  if (rc != 0) {
    if (!failed) rt::violation("tabulate-failed", "shape query of a registered element failed with " + std::to_string(rc));
  } else
    for (int i = 0; i < 4; ++i)
      if (out[i] != long(r.shape[i])) {
        rt::violation("wrong-shape", "extent " + std::to_string(i) + " is " + std::to_string(out[i]) + ", not " + std::to_string(r.shape[i]));
        break;
      }
  rt::log("shape<%zu> key %d -> %d", sizeof(T), op.key, rc);
  rt::tfree(out);
}

template<typename T> void tabulate_with(const Op &op, int h, const char *how)
{
  // op.c: 0 exact buffer, 1 larger buffer, from 2 on too small in several ways
  const auto &r = refs<T>()[{ op.key, op.a, op.b }];
  const int g = gdim_of(VALID[op.key]);
  const long need = long(r.v.size());
  const long less[] = { need - 1, 0, need / 2, need / long(r.shape[3]), need / long(r.shape[2]), need / long(r.shape[0]), need - long(r.shape[2]) };
  long cap = op.c == 0 ? need : op.c == 1 ? need + 7 : less[op.c - 2];
  if (op.c >= 2 && cap >= need) cap = need - 1;
  T *x = static_cast<T *>(rt::talloc(sizeof(T) * NP[op.b] * g, true));
  T *b = static_cast<T *>(rt::talloc(sizeof(T) * (cap > 0 ? cap : 0), true));
  auto pts = points<T>(NP[op.b], g);
  memcpy(x, pts.data(), sizeof(T) * pts.size());
  for (long i = 0; i < cap; ++i) b[i] = T(-77.25);
  int failed = 0;
  int rc = call(op, failed, [&] { return Api<T>::tab(h, op.a, x, NP[op.b], g, b, cap); });
  rt::check_redzones(b, "tabulate");
  rt::check_redzones(x, "tabulate points");
  rt::log("tabulate<%zu> %s key %d nd %d np %d cap %d -> %d", sizeof(T), how, op.key, op.a, NP[op.b], op.c, rc);
  if (op.c >= 2) {
    if (rc == 0) rt::violation("small-buffer-accepted", "a buffer of " + std::to_string(cap) + " values was accepted for " + std::to_string(need));
    else if (rc > 0) rt::violation("wrong-code", "a failure gave the positive code " + std::to_string(rc));
    for (long i = 0; i < cap; ++i)
      if (b[i] != T(-77.25)) {
        rt::violation("small-buffer-accepted", "a buffer that is too small was refused but written to");
        break;
      }
    rt::probe("small-buffer");
  } else if (rc != 0) {
    if (!failed) rt::violation("tabulate-failed", "tabulating a registered element failed with " + std::to_string(rc));
    else if (rc > 0) rt::violation("wrong-code", "a failure gave the positive code " + std::to_string(rc));
    rt::probe("tabulate-failed");
  } else {
    const double tol = sizeof(T) == 8 ? 1e-11 : 1e-4;
    for (long i = 0; i < need; ++i)
      if (!(std::fabs(double(b[i]) - double(r.v[i])) <= tol * (1 + std::fabs(double(r.v[i]))))) {
        char m[200];
        snprintf(m, sizeof m, "entry %ld of element %d (derivatives %d, %d points) is %.17g, the element library gives %.17g",
          i, op.key, op.a, NP[op.b], double(b[i]), double(r.v[i]));
        rt::violation("wrong-values", m);
        break;
      }
    for (long i = need; i < cap; ++i)
      if (b[i] != T(-77.25)) {
        rt::violation("out-of-bounds", "values beyond the table were overwritten");
        break;
      }
    rt::probe("tabulated");
  }
  rt::tfree(b);
  rt::tfree(x);
}
template<typename T> void do_tabulate(const Op &op, std::map<int, int> &known)
{
  if (known.count(op.key)) tabulate_with<T>(op, known[op.key], "handle");
}

template<typename T> void do_bad(const Op &op)
{
  // a handle nobody was given: negative, huge, or just past everything started
  static const int off[] = { -1, -2, -2147483647 - 1, 2147483647, 1000, 0 };
  int h = off[op.c % 6];
  if (op.c % 6 == 5) {
    Model &m = model[TI<T>];
    if (!m.started.empty()) return;    // only when nothing is registered at all
    h = op.key;
  }
  const int g = gdim_of(VALID[op.key]);
  const auto &r = refs<T>()[{ op.key, op.a, op.b }];
  long *out = static_cast<long *>(rt::talloc(4 * sizeof(long), true));
  T *b = static_cast<T *>(rt::talloc(sizeof(T) * r.v.size(), true));
  auto pts = points<T>(NP[op.b], g);
  for (int i = 0; i < 4; ++i) out[i] = -9;
  for (std::size_t i = 0; i < r.v.size(); ++i) b[i] = T(-77.25);
  int failed = 0;
  int rc = call(op, failed, [&] { return Api<T>::shape(h, op.a, NP[op.b], out); });
  int rc2 = call(op, failed, [&] { return Api<T>::tab(h, op.a, pts.data(), NP[op.b], g, b, long(r.v.size())); });
  rt::log("bad handle %d -> %d %d", h, rc, rc2);
  if (rc == 0 || rc2 == 0) rt::violation("bad-handle-accepted", "handle " + std::to_string(h) + " that was never given out was accepted");
  else if (rc > 0 || rc2 > 0) rt::violation("wrong-code", "a bad handle gave a positive code");
  for (int i = 0; i < 4; ++i)
    if (out[i] != -9) rt::violation("bad-handle-accepted", "a rejected shape query wrote its output");
  for (T v : std::span<T>(b, r.v.size()))
    if (v != T(-77.25)) {
      rt::violation("bad-handle-accepted", "a rejected tabulation wrote its output");
      break;
    }
  rt::probe("bad-handle");
  rt::tfree(b);
  rt::tfree(out);
}

struct ScratchUse { uintptr_t lo, hi; int tid, ty; };
std::vector<ScratchUse> scratch_now;    // latest buffer of each live thread and type

template<typename T> void do_scratch(const Op &op, int slot)
{
  static const long N[] = { 0, 1, 3, 16, 17, 100, 1000, 5000, -1, 1L << 61, 2L << 60 };
  long n = N[op.key % 11];
  int failed = 0;
  T *p = call(op, failed, [&] { return Api<T>::scratch(n); });
  int me = rt::self();
  rt::log("scratch<%zu> %ld -> %s", sizeof(T), n, p ? "ok" : "null");
  if (n < 0 || n > (1L << 40)) {
    if (p) rt::violation("scratch-small", "a buffer of impossible size was granted");
    rt::probe("scratch-impossible");
    return;
  }
  if (!p) {
    if (n > 0 && !failed) rt::violation("scratch-null", "no buffer of " + std::to_string(n) + " values though nothing failed");
    rt::probe("scratch-null");
    return;
  }
  if (n == 0) return;
  std::string why;
  if (!rt::inside_live(p, sizeof(T) * n, why))
    rt::violation("scratch-small", "the buffer for " + std::to_string(n) + " values is " + why);
  uintptr_t lo = reinterpret_cast<uintptr_t>(p), hi = lo + sizeof(T) * n;
  for (auto &u : scratch_now)
    if (lo < u.hi && u.lo < hi && (u.tid != me || u.ty != TI<T>))
      rt::violation("scratch-shared", u.tid != me ? "two threads share a scratch buffer" : "both precisions share a scratch buffer");
  std::erase_if(scratch_now, [&](auto &u) { return u.tid == me && u.ty == TI<T>; });
  scratch_now.push_back({ lo, hi, me, TI<T> });
  const T val = T(me * 1000 + slot % 900);
  for (long i = 0; i < n; ++i) p[i] = val;
  for (int k = 0; k < 3; ++k) rt::yield("use scratch");
  std::string w2;
  if (!rt::inside_live(p, sizeof(T) * n, w2)) rt::violation("scratch-shared", "a buffer in use became " + w2);
  else
    for (long i = 0; i < n; ++i)
      if (p[i] != val) {
        rt::violation("scratch-shared", "a buffer in use was overwritten");
        break;
      }
  rt::check_redzones(p, "scratch");
  rt::probe("scratch");
}

template<typename T> void do_size(const Op &op)
{
  Model &m = model[TI<T>];
  int lo = int(m.done.size()), failed = 0;
  int s = call(op, failed, [&] { return Api<T>::size(); });
  int hi = int(m.started.size());
  if (s < lo || s > hi) rt::violation("size-wrong", std::to_string(s) + " elements registered, between " + std::to_string(lo) + " and " + std::to_string(hi) + " expected");
}

template<typename T> void quiescent(const char *when)
{
  Model &m = model[TI<T>];
  int s = Api<T>::size();
  if (s != int(m.handle.size()))
    rt::violation("size-wrong", std::to_string(s) + " elements registered " + when + ", " + std::to_string(m.handle.size()) + " were created successfully");
  m.started = m.done;
  std::map<int, int> known = m.handle;
  for (auto &[k, h] : known) {
    Op op{ 'R', TI<T>, k, 0, 0, 0, 0, 0, 0 };
    do_register<T>(op, known);
    Op t{ 'T', TI<T>, k, 1, 1, 0, 0, 0, 0 };
    do_tabulate<T>(t, known);
  }
  if (Api<T>::size() != s) rt::violation("size-wrong", "registering existing elements again changed their number");
}

template<typename T> void dispatch(const Op &op, std::map<int, int> &known, int slot)
{
  switch (op.kind) {
  case 'R': do_register<T>(op, known); break;
  case 'S': do_shape<T>(op, known); break;
  case 'T': do_tabulate<T>(op, known); break;
  case 'B': do_bad<T>(op); break;
  case 'G': do_scratch<T>(op, slot); break;
  case 'Z': do_size<T>(op); break;
  default: rt::harness_error("unknown op");
  }
}

[[noreturn]] void workload(const rt::Setup &s, std::istream &in)
{
  rt::begin(s);
  int nph;
  in >> nph;
  for (int ph = 0; ph < nph; ++ph) {
    int reset, nt;
    in >> reset >> nt;
    std::vector<std::vector<Op>> ops(nt);
    for (auto &v : ops) {
      int n;
      in >> n;
      for (int i = 0; i < n; ++i) {
        Op o;
        in >> o.kind >> o.ty >> o.key >> o.a >> o.b >> o.c >> o.p >> o.n0 >> o.n1;
        v.push_back(o);
      }
    }
    if (!in) rt::harness_error("bad workload");
    if (reset) {
      {
        rt::Under u;
        qugar_shim_reset();
      }
      rt::log("reset");
      model[0] = Model();
      model[1] = Model();
      rt::probe("reset");
      quiescent<double>("after reset");
      quiescent<float>("after reset");
      for (int c = 0; c < 2; ++c) {
        do_bad<double>(Op{ 'B', 0, c, 1, 1, 5, 0, 0, 0 });
        do_bad<float>(Op{ 'B', 1, c, 1, 1, 5, 0, 0, 0 });
      }
    }
    scratch_now.clear();
    std::vector<std::function<void()>> bodies;
    std::array<std::map<int, int>, 2> before = { model[0].handle, model[1].handle };
    for (auto &v : ops)
      bodies.push_back([&v, before] {
        auto known = before;
        int slot = 0;
        for (auto &o : v) {
          if (o.ty == 0)
            dispatch<double>(o, known[0], slot++);
          else
            dispatch<float>(o, known[1], slot++);
        }
        std::erase_if(scratch_now, [](auto &u) { return u.tid == rt::self(); });
      });
    rt::run_threads(bodies);
    rt::log("phase %d over", ph);
    quiescent<double>("when all threads were done");
    quiescent<float>("when all threads were done");
  }
  // Nothing is armed any more: whatever failed before works now.
  for (int k = 0; k < int(VALID.size()); k += 3) {
    Op op{ 'R', 0, k, 0, 0, 0, 0, 0, 0 };
    do_register<double>(op, model[0].handle);
  }
  quiescent<double>("at the end");
  quiescent<float>("at the end");
  rt::finish();
}
}// namespace

int main(int argc, char **argv)
{
  make_refs<double>();
  make_refs<float>();
  return server::serve(argc, argv, workload);
}
