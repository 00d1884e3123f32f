// Stand-in for algoim's header: the dimension-reduction quadrature of implicit
// domains (R. Saye, 2015), written for the simulator; same interface.
#pragma once
#include <algoim/hyperrectangle.hpp>
#include <algoim/interval.hpp>
#include <algorithm>
#include <array>
#include <utility>
#include <vector>

namespace algoim {
namespace detail {
inline void gauss(int n, std::vector<double> &x, std::vector<double> &w)
{
  x.resize(static_cast<std::size_t>(n));
  w.resize(static_cast<std::size_t>(n));
  for (int i = 0; i < n; ++i) {
    double z = std::cos(3.14159265358979323846 * (i + 0.75) / (n + 0.5)), dp = 1;
    for (int it = 0; it < 60; ++it) {
      double p0 = 1, p1 = z;
      for (int k = 2; k <= n; ++k) {
        const double p2 = ((2 * k - 1) * z * p1 - (k - 1) * p0) / k;
        p0 = p1;
        p1 = p2;
      }
      dp = n == 0 ? 1 : n * (z * p1 - p0) / (z * z - 1);
      const double dz = p1 / dp;
      z -= dz;
      if (std::abs(dz) < 1e-16) break;
    }
    x[static_cast<std::size_t>(n - 1 - i)] = 0.5 * (1 + z);
    w[static_cast<std::size_t>(n - 1 - i)] = 1 / ((1 - z * z) * dp * dp);
  }
}

// Sign changes (and zero ends) of phi along direction k.
template<typename F, int N>
void rootFind(const F &phi, uvector<real, N> x, int k, real x0, real x1, std::vector<real> &roots, bool monotone)
{
  const auto f = [&](real t) { x(k) = t; return phi(x); };
  const auto bisect = [&](real l, real r, real fl) {
    for (int it = 0; it < 60; ++it) {
      const real m = 0.5 * (l + r), fm = f(m);
      if (fm == 0) return m;
      ((fm < 0) == (fl < 0) ? l : r) = m;
    }
    return 0.5 * (l + r);
  };
  const auto piece = [&](real a, real fa, real b, real fb) {
    if (fb == 0) roots.push_back(b);
    else if (fa != 0 && (fa < 0) != (fb < 0)) roots.push_back(bisect(a, b, fa));
  };
  const int n = monotone ? 1 : 32;
  std::array<real, 33> t, v;
  for (int i = 0; i <= n; ++i) v[std::size_t(i)] = f(t[std::size_t(i)] = i == n ? x1 : x0 + (x1 - x0) * i / n);
  if (v[0] == 0) roots.push_back(x0);
  for (int i = 1; i <= n; ++i) {
    const auto at = std::size_t(i);
    const real a = t[at - 1], fa = v[at - 1], b = t[at], fb = v[at];
    // Where the function almost touches zero, look between the samples.
    if (!monotone && fa != 0 && (fa < 0) == (fb < 0)) {
      const real s = fa < 0 ? -1 : 1;
      const real left = i == 1 ? 1 : s * (1.5 * fa - 0.5 * v[at - 2]), right = i == n ? 1 : s * (1.5 * fb - 0.5 * v[at + 1]);
      if ((left < 0 || right < 0) && (i == 1 || s * v[at - 2] >= s * fa) && (i == n || s * v[at + 1] >= s * fb)) {
        real l = a, r = b;
        for (int it = 0; it < 24; ++it) {
          const real m1 = l + (r - l) / 3, m2 = r - (r - l) / 3;
          if (s * f(m1) < s * f(m2)) r = m2;
          else l = m1;
        }
        const real m = 0.5 * (l + r), fm = f(m);
        if (s * fm < 0) {
          roots.push_back(bisect(a, m, fa));
          roots.push_back(bisect(m, b, fm));
          continue;
        }
      }
    }
    piece(a, fa, b, fb);
  }
}

template<bool S> void determineSigns(bool positive_above, int sign, int &bottom, int &top)
{
  if (S) {
    bottom = positive_above ? -1 : 1;
    top = -bottom;
    return;
  }
  bottom = top = 0;
  if (sign < 0) (positive_above ? bottom : top) = -1;
  else if (sign > 0) (positive_above ? top : bottom) = 1;
}
}// namespace detail

template<int N> class PsiCode
{
  uvector<int, N> side_;
  int sign_ = 0;

public:
  PsiCode() = default;
  PsiCode(const uvector<int, N> &side, int sign) : side_(side), sign_(sign) {}
  PsiCode(const PsiCode &o, int dir, int side, int sign) : side_(set_component(o.side_, dir, side)), sign_(sign) {}
  int side(int d) const { return side_(d); }
  int sign() const { return sign_; }
};

template<int M, int N, typename Phi, typename F, bool S> struct ImplicitIntegral
{
  static constexpr int n_psi = 1 << (N - 1);
  const Phi &phi;
  F &f;
  uvector<bool, N> free;
  std::array<PsiCode<N>, n_psi> psi;
  int count;
  HyperRectangle<real, N> rect;
  int n, e0 = -1;
  std::vector<double> gx, gw;
  uvector<Interval<N>, N> xint;

  void bounds(int i, uvector<real, N> &x) const
  {
    for (int d = 0; d < N; ++d)
      if (!free(d)) x(d) = rect.side(psi[static_cast<std::size_t>(i)].side(d))(d);
  }
  void ibounds(int i)
  {
    for (int d = 0; d < N; ++d)
      if (!free(d)) xint(d).alpha = rect.side(psi[static_cast<std::size_t>(i)].side(d))(d);
  }
  bool prune()
  {
    for (int i = 0; i < count;) {
      ibounds(i);
      const Interval<N> r = phi(xint);
      if (!r.uniformSign()) { ++i; continue; }
      const int s = psi[static_cast<std::size_t>(i)].sign();
      if ((r.alpha >= 0 && s >= 0) || (r.alpha <= 0 && s <= 0)) std::swap(psi[static_cast<std::size_t>(i)], psi[static_cast<std::size_t>(--count)]);
      else return false;
    }
    return true;
  }
  void tensor(uvector<real, N> x, real w, int d)
  {
    if (d == N) { f.evalIntegrand(x, w); return; }
    if (!free(d)) { tensor(x, w, d + 1); return; }
    for (int i = 0; i < n; ++i) {
      x(d) = rect.min(d) + rect.extent(d) * gx[static_cast<std::size_t>(i)];
      tensor(x, w * rect.extent(d) * gw[static_cast<std::size_t>(i)], d + 1);
    }
  }
  void evalIntegrand(uvector<real, N> x, real w)
  {
    std::vector<real> cuts{ rect.min(e0), rect.max(e0) };
    for (int i = 0; i < count; ++i) {
      bounds(i, x);
      if constexpr (S) {
        std::vector<real> roots;
        detail::rootFind<Phi, N>(phi, x, e0, rect.min(e0), rect.max(e0), roots, M > 1);
        for (const auto r : roots) {
          x(e0) = r;
          const auto g = phi.grad(x);
          f.evalIntegrand(x, norm(g) / std::abs(g(e0)) * w);
        }
        return;
      } else
        detail::rootFind<Phi, N>(phi, x, e0, rect.min(e0), rect.max(e0), cuts, M > 1);
    }
    if constexpr (!S) {
      std::sort(cuts.begin(), cuts.end());
      for (std::size_t k = 0; k + 1 < cuts.size(); ++k) {
        const real a = cuts[k], b = cuts[k + 1];
        if (b - a < 50 * 2.2e-16 * rect.extent(e0)) continue;
        bool okay = true;
        for (int i = 0; i < count && okay; ++i) {
          x(e0) = 0.5 * (a + b);
          bounds(i, x);
          const int s = psi[static_cast<std::size_t>(i)].sign();
          okay = phi(x) > 0 ? s >= 0 : s <= 0;
        }
        if (!okay) continue;
        for (int i = 0; i < n; ++i) {
          x(e0) = a + (b - a) * gx[static_cast<std::size_t>(i)];
          f.evalIntegrand(x, w * gw[static_cast<std::size_t>(i)] * (b - a));
        }
      }
    }
  }

  ImplicitIntegral(const Phi &phi_, F &f_, const uvector<bool, N> &free_, const std::array<PsiCode<N>, n_psi> &psi_, int count_,
    const HyperRectangle<real, N> &rect_, int n_, int level = 0)
    : phi(phi_), f(f_), free(free_), psi(psi_), count(count_), rect(rect_), n(n_)
  {
    detail::gauss(n, gx, gw);
    if constexpr (M == 1) {
      for (int d = 0; d < N; ++d) if (free(d)) e0 = d;
      evalIntegrand(uvector<real, N>(0.0), 1.0);
      return;
    } else {
      for (int d = 0; d < N; ++d) {
        xint(d) = free(d) ? Interval<N>(rect.midpoint(d), set_component<real, N>(0.0, d, 1.0)) : Interval<N>(0.0);
        Interval<N>::delta(d) = free(d) ? 0.5 * rect.extent(d) : 0.0;
      }
      if (!prune()) return;
      if (count == 0) {
        if constexpr (!S) tensor(uvector<real, N>(0.0), 1.0, 0);
        return;
      }
      ibounds(0);
      const uvector<Interval<N>, N> g0 = phi.grad(xint);
      real best = 0;
      for (int d = 0; d < N; ++d)
        if (free(d) && std::abs(g0(d).alpha) > 1.001 * g0(d).maxDeviation() && std::abs(g0(d).alpha) * rect.extent(d) > best) {
          best = std::abs(g0(d).alpha) * rect.extent(d);
          e0 = d;
        }
      std::array<PsiCode<N>, n_psi> np;
      int nc = 0;
      for (int i = 0; i < count; ++i) {
        ibounds(i);
        bool okay = false;
        uvector<Interval<N>, N> g;
        if (e0 != -1) {
          g = phi.grad(xint);
          okay = g(e0).uniformSign();
        }
        if (!okay) {
          // Nothing to resolve where the function vanishes identically.
          bool flat = true;
          for (int j = 0; j < count && flat; ++j) {
            ibounds(j);
            const Interval<N> r = phi(xint);
            flat = std::abs(r.alpha) + r.maxDeviation() < 1e-11;
          }
          if (level >= 16 || flat) {
            uvector<real, N> x = rect.midpoint();
            bool in = true;
            for (int j = 0; j < count && in; ++j) {
              bounds(j, x);
              const int s = psi[static_cast<std::size_t>(j)].sign();
              in = phi(x) >= 0 ? s >= 0 : s <= 0;
            }
            if (in)
              if constexpr (!S) tensor(uvector<real, N>(0.0), 1.0, 0);
            return;
          }
          int k = -1;
          for (int d = 0; d < N; ++d)
            if (free(d) && (k < 0 || rect.extent(d) > rect.extent(k))) k = d;
          const real m = rect.midpoint(k);
          ImplicitIntegral(phi, f, free, psi, count, HyperRectangle<real, N>(rect.min(), set_component(rect.max(), k, m)), n, level + 1);
          ImplicitIntegral(phi, f, free, psi, count, HyperRectangle<real, N>(set_component(rect.min(), k, m), rect.max()), n, level + 1);
          return;
        }
        int b = 0, t = 0;
        detail::determineSigns<S>(g(e0).alpha > 0, psi[static_cast<std::size_t>(i)].sign(), b, t);
        np[static_cast<std::size_t>(nc++)] = PsiCode<N>(psi[static_cast<std::size_t>(i)], e0, 0, b);
        np[static_cast<std::size_t>(nc++)] = PsiCode<N>(psi[static_cast<std::size_t>(i)], e0, 1, t);
      }
      ImplicitIntegral<M - 1, N, Phi, ImplicitIntegral, false>(phi, *this, set_component(free, e0, false), np, nc, rect, n);
    }
  }
};
template<int N, typename Phi, typename F, bool S> struct ImplicitIntegral<0, N, Phi, F, S>
{
  template<typename... A> ImplicitIntegral(A &&...) {}
};

template<int N> struct QuadratureRule
{
  struct Node
  {
    uvector<real, N> x;
    real w;
    Node(const uvector<real, N> &x_, real w_) : x(x_), w(w_) {}
  };
  std::vector<Node> nodes;
  void evalIntegrand(const uvector<real, N> &x, real w) { nodes.emplace_back(x, w); }
  real sumWeights() const
  {
    real s = 0;
    for (const auto &k : nodes) s += k.w;
    return s;
  }
};

template<int N, typename F> QuadratureRule<N> quadGen(const F &phi, const HyperRectangle<real, N> &rect, int dim, int side, int n)
{
  QuadratureRule<N> q;
  std::array<PsiCode<N>, 1 << (N - 1)> psi;
  uvector<bool, N> free(true);
  if (dim >= 0 && dim < N) {
    psi[0] = PsiCode<N>(set_component<int, N>(0, dim, side), -1);
    free(dim) = false;
    ImplicitIntegral<N - 1, N, F, QuadratureRule<N>, false>(phi, q, free, psi, 1, rect, n);
    for (auto &k : q.nodes) k.x(dim) = rect.side(side)(dim);
  } else {
    psi[0] = PsiCode<N>(uvector<int, N>(0), -1);
    if (dim == N) ImplicitIntegral<N, N, F, QuadratureRule<N>, true>(phi, q, free, psi, 1, rect, n);
    else ImplicitIntegral<N, N, F, QuadratureRule<N>, false>(phi, q, free, psi, 1, rect, n);
  }
  return q;
}
}// namespace algoim
