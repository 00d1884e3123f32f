// Stand-in for algoim's header: quadrature of the domains of one Bernstein
// polynomial on [0,1]^N, in strips along the last direction.
#pragma once
#include <algoim/bernstein.hpp>
#include <algoim/quadrature_general.hpp>

namespace algoim {
enum QuadStrategy { AlwaysGL, AlwaysTS, AutoMixed };

template<int N> struct ImplicitPolyQuadrature
{
  std::vector<double> c;
  uvector<int, N> ext;
  explicit ImplicitPolyQuadrature(const xarray<double, N> &a) : c(a.data(), a.data() + a.size()), ext(a.ext()) {}

  template<typename P> bool crossed(const P &phi, int m) const
  {
    const xarray<double, N> a(const_cast<double *>(c.data()), ext);
    if (bernstein::uniformSign<N>(a) != 0) return false;
    int total = 1;
    for (int d = 0; d < N - 1; ++d) total *= m + 1;
    for (int k = 0; k < total; ++k) {
      uvector<double, N> x(0.0);
      for (int d = 0, r = k; d < N - 1; ++d, r /= m + 1) x(d) = (r % (m + 1)) / double(m);
      std::vector<double> cuts;
      detail::rootFind<P, N>(phi, x, N - 1, 0, 1, cuts, false);
      for (double v : cuts)
        if (v > 1e-12 && v < 1 - 1e-12) return true;
    }
    uvector<double, N> x(0.5);
    double s = 0;
    for (int k = 0; k < total; ++k) {
      for (int d = 0, r = k; d < N - 1; ++d, r /= m + 1) x(d) = (r % (m + 1)) / double(m);
      const double v = phi(x);
      if (s * v < 0) return true;
      if (v != 0) s = v;
    }
    return false;
  }
  template<typename V> void strips(int n, bool surf, const V &visit)
  {
    const xarray<double, N> a(c.data(), ext);
    const auto phi = [&a](const uvector<double, N> &x) { return bernstein::evalBernsteinPoly<N>(a, x); };
    std::vector<double> gx, gw;
    detail::gauss(n, gx, gw);
    // One strip when no root is met: the rule of the whole cell.
    const int most = N == 1 ? 1 : N == 2 ? 12 : 6;    // strips per direction
    const int m = !surf && most > 1 && !crossed(phi, most) ? 1 : most;
    int total = 1;
    for (int d = 0; d < N - 1; ++d) total *= m * n;
    for (int k = 0; k < total; ++k) {
      uvector<double, N> x(0.0);
      double w = 1;
      for (int d = 0, r = k; d < N - 1; ++d, r /= m * n) {
        const int i = r % (m * n);
        x(d) = (i / n + gx[static_cast<std::size_t>(i % n)]) / m;
        w *= gw[static_cast<std::size_t>(i % n)] / m;
      }
      std::vector<double> cuts;
      if (!surf) { cuts.push_back(0); cuts.push_back(1); }
      detail::rootFind<decltype(phi), N>(phi, x, N - 1, 0, 1, cuts, false);
      std::sort(cuts.begin(), cuts.end());
      for (std::size_t j = 0; j + (surf ? 0 : 1) < cuts.size(); ++j) {
        if (surf) {
          x(N - 1) = cuts[j];
          visit(x, w, a);
          continue;
        }
        const double lo = cuts[j], hi = cuts[j + 1];
        if (hi - lo < 1e-14) continue;
        for (int i = 0; i < n; ++i) {
          x(N - 1) = lo + (hi - lo) * gx[static_cast<std::size_t>(i)];
          visit(x, w * (hi - lo) * gw[static_cast<std::size_t>(i)], a);
        }
      }
    }
  }
  template<typename F> void integrate(QuadStrategy, int n, const F &f)
  {
    strips(n, false, [&f](const auto &x, double w, const auto &) { f(x, w); });
  }
  template<typename F> void integrate_surf(QuadStrategy, int n, const F &f)
  {
    strips(n, true, [&f](const uvector<double, N> &x, double w, const auto &a) {
      const auto g = bernstein::evalBernsteinPolyGradient<N>(a, x);
      f(x, w * norm(g) / std::abs(g(N - 1)), g * (w / std::abs(g(N - 1))));
    });
  }
};
}// namespace algoim
