// Stand-in for algoim's header.
#pragma once
#include <algoim/uvector.hpp>
namespace algoim {
template<typename T, int N> class HyperRectangle
{
  uvector<uvector<T, N>, 2> r_;

public:
  HyperRectangle(const uvector<T, N> &min, const uvector<T, N> &max) { r_(0) = min; r_(1) = max; }
  const uvector<T, N> &side(int s) const { return r_(s); }
  uvector<T, N> &side(int s) { return r_(s); }
  uvector<T, N> &min() { return r_(0); }
  uvector<T, N> &max() { return r_(1); }
  const uvector<T, N> &min() const { return r_(0); }
  const uvector<T, N> &max() const { return r_(1); }
  T &min(int d) { return r_(0)(d); }
  T &max(int d) { return r_(1)(d); }
  T min(int d) const { return r_(0)(d); }
  T max(int d) const { return r_(1)(d); }
  uvector<T, N> extent() const { return r_(1) - r_(0); }
  T extent(int d) const { return r_(1)(d) - r_(0)(d); }
  uvector<T, N> midpoint() const { return (r_(0) + r_(1)) * T(0.5); }
  T midpoint(int d) const { return (r_(0)(d) + r_(1)(d)) * T(0.5); }
};
}// namespace algoim
