#pragma once
#include <basix/finite-element.h>

#include "rt.h"

#include <array>
#include <span>

// ------------------------------------------------- library calls of the shim
struct LibCall
{
  const char *w;
  explicit LibCall(const char *what) : w(what)
  {
    rt::yield(what);
    rt::region(1);
    rt::foreign(1);
  }
  ~LibCall()
  {
    rt::region(-1);
    rt::foreign(-1);
    rt::yield(w);
  }
};
#define CE(P, t) P##_ZN5basix14create_elementI##t##EENS_13FiniteElementIT_EENS_7element6familyENS_4cell4typeEiNS4_16lagrange_variantENS4_11dpc_variantEbSt6vectorIiSaIiEE
#define TB(P, t) P##_ZNK5basix13FiniteElementI##t##E8tabulateEiSt4spanIK##t##Lm18446744073709551615EESt5arrayImLm2EES2_I##t##Lm18446744073709551615EE
#define LIBCALLS(T, t)                                                                                          \
  extern "C" void *CE(__real_, t)(void *, int, int, int, int, int, bool, void *);                               \
  extern "C" void *CE(__wrap_, t)(void *ret, int f, int c, int d, int l, int v, bool b, void *o)                 \
  {                                                                                                             \
    LibCall lc("create_element");                                                                               \
    return CE(__real_, t)(ret, f, c, d, l, v, b, o);                                                             \
  }                                                                                                             \
  extern "C" void TB(__real_, t)(const void *, int, std::span<const T>, std::array<std::size_t, 2>, std::span<T>); \
  extern "C" void TB(__wrap_, t)(const void *self, int nd, std::span<const T> x, std::array<std::size_t, 2> s, std::span<T> out) \
  {                                                                                                             \
    rt::access(self, sizeof(basix::FiniteElement<T>), false, "tabulate");                                        \
    rt::access(x.data(), x.size_bytes(), false, "tabulate points");                                              \
    rt::access(out.data(), out.size_bytes(), true, "tabulate output");                                           \
    {                                                                                                           \
      LibCall lc("tabulate");                                                                                   \
      rt::access(self, sizeof(basix::FiniteElement<T>), false, "tabulate");                                      \
      TB(__real_, t)(self, nd, x, s, out);                                                                      \
    }                                                                                                           \
    rt::access(self, sizeof(basix::FiniteElement<T>), false, "tabulate");                                        \
    rt::access(out.data(), out.size_bytes(), true, "tabulate output");                                           \
  }
LIBCALLS(double, d)
LIBCALLS(float, f)

