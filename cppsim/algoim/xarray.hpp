// Stand-in for algoim's header: a view of an array, last index fastest.
#pragma once
#include <algoim/uvector.hpp>
namespace algoim {
template<typename T, int N> class xarray
{
  T *data_;
  uvector<int, N> ext_;

public:
  xarray(T *data, const uvector<int, N> &ext) : data_(data), ext_(ext) {}
  xarray(const xarray &) = default;
  xarray &operator=(const xarray &o)
  {
    for (int i = 0; i < o.size(); ++i) data_[i] = o.data_[i];
    return *this;
  }
  T *data() { return data_; }
  const T *data() const { return data_; }
  const uvector<int, N> &ext() const { return ext_; }
  int ext(int i) const { return ext_(i); }
  int size() const { return prod(ext_); }
  T &operator[](int i) { return data_[i]; }
  const T &operator[](int i) const { return data_[i]; }
};
}// namespace algoim
