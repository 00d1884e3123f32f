// Stand-in for algoim's header of this name (the library is not installed here).
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <map>
#include <iomanip>
#include <vector>
#include <numeric>
#include <limits>
#include <iostream>
#include <functional>
#include <cstring>
#include <cmath>
#include <cstddef>
#include <type_traits>
#include <utility>

namespace algoim {
using real = double;

template<typename T, int N> class uvector
{
  std::array<T, N> d_{};

public:
  uvector() = default;
  uvector(const T &v) { for (auto &x : d_) x = v; }
  template<typename... A>
    requires(sizeof...(A) == N && N >= 2 && (std::is_convertible_v<A, T> && ...))
  uvector(const A &...a) : d_{ T(a)... }
  {}
  template<typename S>
    requires(!std::is_same_v<S, T> && std::is_convertible_v<S, T>)
  uvector(const uvector<S, N> &o) { for (int i = 0; i < N; ++i) d_[static_cast<std::size_t>(i)] = T(o(i)); }
  T &operator()(int i) { return d_[static_cast<std::size_t>(i)]; }
  const T &operator()(int i) const { return d_[static_cast<std::size_t>(i)]; }
  T &operator[](int i) { return d_[static_cast<std::size_t>(i)]; }
  const T &operator[](int i) const { return d_[static_cast<std::size_t>(i)]; }
  T *data() { return d_.data(); }
  const T *data() const { return d_.data(); }
#define ALG_OP(OP)                                                                                          \
  template<typename S> uvector &operator OP(const uvector<S, N> &o)                                         \
  {                                                                                                         \
    for (int i = 0; i < N; ++i) (*this)(i) OP o(i);                                                         \
    return *this;                                                                                           \
  }                                                                                                         \
  template<typename S>                                                                                      \
    requires(std::is_convertible_v<S, T>)                                                                   \
  uvector &operator OP(const S &o)                                                                          \
  {                                                                                                         \
    for (auto &x : d_) x OP o;                                                                              \
    return *this;                                                                                           \
  }
  ALG_OP(+=) ALG_OP(-=) ALG_OP(*=) ALG_OP(/=)
#undef ALG_OP
  uvector operator-() const
  {
    uvector r;
    for (int i = 0; i < N; ++i) r(i) = -(*this)(i);
    return r;
  }
};

template<typename T> struct is_uvector : std::false_type {};
template<typename T, int N> struct is_uvector<uvector<T, N>> : std::true_type {};
template<typename T> inline constexpr bool is_uvector_v = is_uvector<std::remove_cvref_t<T>>::value;

#define ALG_BIN(OP)                                                                                         \
  template<typename A, typename B, int N> auto operator OP(const uvector<A, N> &a, const uvector<B, N> &b)  \
    -> uvector<std::remove_cvref_t<decltype(std::declval<A>() OP std::declval<B>())>, N>                    \
  {                                                                                                         \
    uvector<std::remove_cvref_t<decltype(std::declval<A>() OP std::declval<B>())>, N> r;                    \
    for (int i = 0; i < N; ++i) r(i) = a(i) OP b(i);                                                        \
    return r;                                                                                               \
  }                                                                                                         \
  template<typename A, typename B, int N>                                                                   \
    requires(!is_uvector_v<B>)                                                                              \
  auto operator OP(const uvector<A, N> &a, const B &b)                                                      \
    -> uvector<std::remove_cvref_t<decltype(std::declval<A>() OP std::declval<B>())>, N>                    \
  {                                                                                                         \
    uvector<std::remove_cvref_t<decltype(std::declval<A>() OP std::declval<B>())>, N> r;                    \
    for (int i = 0; i < N; ++i) r(i) = a(i) OP b;                                                           \
    return r;                                                                                               \
  }                                                                                                         \
  template<typename A, typename B, int N>                                                                   \
    requires(!is_uvector_v<A>)                                                                              \
  auto operator OP(const A &a, const uvector<B, N> &b)                                                      \
    -> uvector<std::remove_cvref_t<decltype(std::declval<A>() OP std::declval<B>())>, N>                    \
  {                                                                                                         \
    uvector<std::remove_cvref_t<decltype(std::declval<A>() OP std::declval<B>())>, N> r;                    \
    for (int i = 0; i < N; ++i) r(i) = a OP b(i);                                                           \
    return r;                                                                                               \
  }
ALG_BIN(+) ALG_BIN(-) ALG_BIN(*) ALG_BIN(/)
ALG_BIN(<) ALG_BIN(>) ALG_BIN(<=) ALG_BIN(>=) ALG_BIN(==) ALG_BIN(!=)
#undef ALG_BIN

template<typename T, typename S, int N> auto dot(const uvector<T, N> &a, const uvector<S, N> &b)
{
  auto r = a(0) * b(0);
  for (int i = 1; i < N; ++i) r = r + a(i) * b(i);
  return r;
}
template<typename T, int N> T sqrnorm(const uvector<T, N> &a) { return dot(a, a); }
template<typename T, int N> T norm(const uvector<T, N> &a)
{
  using std::sqrt;
  return sqrt(sqrnorm(a));
}
template<typename T, int N> T prod(const uvector<T, N> &a)
{
  T r(1);
  for (int i = 0; i < N; ++i) r = r * a(i);
  return r;
}
template<typename T, int N> int argmax(const uvector<T, N> &a)
{
  int k = 0;
  for (int i = 1; i < N; ++i) if (a(i) > a(k)) k = i;
  return k;
}
template<typename T, int N> int argmin(const uvector<T, N> &a)
{
  int k = 0;
  for (int i = 1; i < N; ++i) if (a(i) < a(k)) k = i;
  return k;
}
template<typename T, int N> T max(const uvector<T, N> &a) { return a(argmax(a)); }
template<typename T, int N> T min(const uvector<T, N> &a) { return a(argmin(a)); }
template<int N> bool all(const uvector<bool, N> &a)
{
  for (int i = 0; i < N; ++i) if (!a(i)) return false;
  return true;
}
template<int N> bool any(const uvector<bool, N> &a)
{
  for (int i = 0; i < N; ++i) if (a(i)) return true;
  return false;
}
template<typename T, int N> uvector<T, N> abs(const uvector<T, N> &a)
{
  uvector<T, N> r;
  for (int i = 0; i < N; ++i) r(i) = std::abs(a(i));
  return r;
}
template<typename T, int N> uvector<T, N> set_component(const uvector<T, N> &a, int k, const std::type_identity_t<T> &v)
{
  uvector<T, N> r(a);
  r(k) = v;
  return r;
}
template<typename T, int N> uvector<T, N> set_component(const std::type_identity_t<T> &x, int k, const std::type_identity_t<T> &v)
{
  uvector<T, N> r(x);
  r(k) = v;
  return r;
}
template<typename T, int N> uvector<T, N - 1> remove_component(const uvector<T, N> &a, int k)
{
  uvector<T, N - 1> r;
  for (int i = 0; i < N - 1; ++i) r(i) = a(i < k ? i : i + 1);
  return r;
}
template<typename T, int N> uvector<T, N + 1> add_component(const uvector<T, N> &a, int k, const std::type_identity_t<T> &v)
{
  uvector<T, N + 1> r;
  for (int i = 0; i < N + 1; ++i) r(i) = i < k ? a(i) : i == k ? v : a(i - 1);
  return r;
}
}// namespace algoim
