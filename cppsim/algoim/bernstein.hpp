// Stand-in for algoim's header.
#pragma once
#include <algoim/binomial.hpp>
#include <algoim/xarray.hpp>
#include <vector>
namespace algoim::bernstein {
inline double modifiedChebyshevNode(int i, int n)
{
  if (n == 1) return 0.5;
  return 0.5 - 0.5 * std::cos(i * 3.14159265358979323846 / (n - 1));
}
inline void basis(int n, double x, double *b)
{
  const double *c = Binomial::row(n - 1);
  for (int i = 0; i < n; ++i) {
    double v = c[i];
    for (int k = 0; k < i; ++k) v *= x;
    for (int k = i; k < n - 1; ++k) v *= 1 - x;
    b[i] = v;
  }
}
template<int N> double evalBernsteinPoly(const xarray<double, N> &a, const uvector<double, N> &x, int der = -1)
{
  std::vector<double> w[N];
  for (int d = 0; d < N; ++d) {
    const int n = a.ext(d);
    w[d].assign(static_cast<std::size_t>(n), 0.0);
    if (d != der) basis(n, x(d), w[d].data());
    else if (n > 1) {
      std::vector<double> l(static_cast<std::size_t>(n - 1));
      basis(n - 1, x(d), l.data());
      for (int i = 0; i < n; ++i)
        w[d][static_cast<std::size_t>(i)] = (n - 1) * ((i > 0 ? l[static_cast<std::size_t>(i - 1)] : 0.0) - (i < n - 1 ? l[static_cast<std::size_t>(i)] : 0.0));
    }
  }
  double s = 0;
  for (int k = 0; k < a.size(); ++k) {
    double v = a[k];
    int r = k;
    for (int d = N - 1; d >= 0; --d) {
      v *= w[d][static_cast<std::size_t>(r % a.ext(d))];
      r /= a.ext(d);
    }
    s += v;
  }
  return s;
}
template<int N> uvector<double, N> evalBernsteinPolyGradient(const xarray<double, N> &a, const uvector<double, N> &x)
{
  uvector<double, N> g;
  for (int d = 0; d < N; ++d) g(d) = evalBernsteinPoly<N>(a, x, d);
  return g;
}
template<int N> int uniformSign(const xarray<double, N> &a)
{
  int s = 0;
  for (int i = 0; i < a.size(); ++i) {
    const int t = a[i] > 0 ? 1 : a[i] < 0 ? -1 : 0;
    if (t == 0 || (s != 0 && t != s)) return 0;
    s = t;
  }
  return s;
}
// Coefficients on [min, max] (of [0,1]^N); T may be a vector.
template<typename T, int N> void deCasteljau(xarray<T, N> &a, const double *min, const double *max)
{
  int stride = a.size();
  for (int d = 0; d < N; ++d) {
    const int n = a.ext(d);
    stride /= n;
    for (int k = 0; k < a.size(); ++k) {
      if ((k / stride) % n != 0) continue;
      auto at = [&](int i) -> T & { return a[k + i * stride]; };
      // [0, max], and then [min / max, 1] of it
      const double t = max[d];
      for (int l = 1; l < n; ++l)
        for (int i = n - 1; i >= l; --i) at(i) = at(i) * t + at(i - 1) * (1 - t);
      const double u = min[d] / max[d];
      for (int l = 1; l < n; ++l)
        for (int i = 0; i < n - l; ++i) at(i) = at(i) * (1 - u) + at(i + 1) * u;
    }
  }
}
}// namespace algoim::bernstein
