// Stand-in for algoim's header.
#pragma once
#include <vector>
namespace algoim {
struct Binomial
{
  static const double *row(int n)
  {
    static const std::vector<std::vector<double>> t = [] {
      std::vector<std::vector<double>> r;
      for (int i = 0; i <= 30; ++i) {
        std::vector<double> v(static_cast<std::size_t>(i) + 1, 1.0);
        for (int k = 1; k < i; ++k) v[static_cast<std::size_t>(k)] = r.back()[static_cast<std::size_t>(k - 1)] + r.back()[static_cast<std::size_t>(k)];
        r.push_back(v);
      }
      return r;
    }();
    return t[static_cast<std::size_t>(n)].data();
  }
};
}// namespace algoim
