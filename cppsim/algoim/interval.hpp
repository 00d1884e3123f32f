// Stand-in for algoim's header: first-order Taylor arithmetic with a remainder bound.
#pragma once
#include <algoim/uvector.hpp>

namespace algoim {
// alpha + beta.y + e for every |y_i| <= delta(i), with |e| <= eps.
template<int N> struct Interval
{
  real alpha;
  uvector<real, N> beta;
  real eps;

  static uvector<real, N> &deltas()
  {
    static thread_local uvector<real, N> d;
    return d;
  }
  static real &delta(int i) { return deltas()(i); }

  Interval() : alpha(0), beta(real(0)), eps(0) {}
  Interval(real a) : alpha(a), beta(real(0)), eps(0) {}
  Interval(real a, const uvector<real, N> &b) : alpha(a), beta(b), eps(0) {}
  Interval(real a, const uvector<real, N> &b, real e) : alpha(a), beta(b), eps(e) {}
  real lin() const
  {
    real s = 0;
    for (int i = 0; i < N; ++i) s += std::abs(beta(i)) * delta(i);
    return s;
  }
  real maxDeviation() const { return eps + lin(); }
  bool uniformSign() const { return std::abs(alpha) > maxDeviation(); }
  int sign() const { return alpha > 0 ? 1 : alpha < 0 ? -1 : 0; }

  Interval operator-() const { return Interval(-alpha, -beta, eps); }
  Interval &operator+=(const Interval &o) { alpha += o.alpha; beta += o.beta; eps += o.eps; return *this; }
  Interval &operator-=(const Interval &o) { alpha -= o.alpha; beta -= o.beta; eps += o.eps; return *this; }
  Interval &operator*=(const Interval &o)
  {
    const real e = std::abs(alpha) * o.eps + std::abs(o.alpha) * eps + maxDeviation() * o.maxDeviation();
    beta = beta * o.alpha + o.beta * alpha;
    alpha *= o.alpha;
    eps = e;
    return *this;
  }
  Interval &operator/=(const Interval &o);
};

// f(alpha) + f'(alpha) d + remainder bounded by c d^2 / 2
template<int N> Interval<N> taylor(const Interval<N> &x, real f, real df, real c)
{
  const real d = x.maxDeviation();
  return Interval<N>(f, x.beta * df, std::abs(df) * x.eps + 0.5 * c * d * d);
}
template<int N> Interval<N> inverse(const Interval<N> &x)
{
  const real d = x.maxDeviation(), a = std::abs(x.alpha);
  if (a <= d) return Interval<N>(0.0, uvector<real, N>(0.0), 1e300);
  const real m = a - d;
  return taylor(x, 1 / x.alpha, -1 / (x.alpha * x.alpha), 2 / (m * m * m));
}
template<int N> Interval<N> &Interval<N>::operator/=(const Interval<N> &o) { return *this *= inverse(o); }

template<int N> Interval<N> operator+(Interval<N> a, const Interval<N> &b) { return a += b; }
template<int N> Interval<N> operator-(Interval<N> a, const Interval<N> &b) { return a -= b; }
template<int N> Interval<N> operator*(Interval<N> a, const Interval<N> &b) { return a *= b; }
template<int N> Interval<N> operator/(Interval<N> a, const Interval<N> &b) { return a /= b; }
#define ALG_I(OP)                                                                                            \
  template<int N, typename S>                                                                                \
    requires(std::is_arithmetic_v<S>)                                                                        \
  Interval<N> operator OP(const Interval<N> &a, const S &b) { return a OP Interval<N>(real(b)); }            \
  template<int N, typename S>                                                                                \
    requires(std::is_arithmetic_v<S>)                                                                        \
  Interval<N> operator OP(const S &a, const Interval<N> &b) { return Interval<N>(real(a)) OP b; }
ALG_I(+) ALG_I(-) ALG_I(*) ALG_I(/)
#undef ALG_I
template<int N> Interval<N> sin(const Interval<N> &x) { return taylor(x, std::sin(x.alpha), std::cos(x.alpha), 1.0); }
template<int N> Interval<N> cos(const Interval<N> &x) { return taylor(x, std::cos(x.alpha), -std::sin(x.alpha), 1.0); }
template<int N> Interval<N> exp(const Interval<N> &x) { return taylor(x, std::exp(x.alpha), std::exp(x.alpha), std::exp(x.alpha + x.maxDeviation())); }
template<int N> Interval<N> sqrt(const Interval<N> &x)
{
  const real m = x.alpha - x.maxDeviation();
  if (m <= 0) return Interval<N>(0.0, uvector<real, N>(0.0), std::sqrt(x.alpha + x.maxDeviation()));
  return taylor(x, std::sqrt(x.alpha), 0.5 / std::sqrt(x.alpha), 0.25 / (m * std::sqrt(m)));
}
}// namespace algoim
