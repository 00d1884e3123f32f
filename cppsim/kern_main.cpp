// Workload and oracle for generated kernels: real generated C (instrumented)
// on the real tabulation shim (instrumented) on real libbasix.
#include "rt.h"
#include "server.h"
#include "libcalls.h"

#include <cmath>
#include <complex>
#include <dlfcn.h>

namespace {
struct Integral   // ufcx_integral of the stand-in ufcx.h
{
  bool *enabled;
  void *f32, *f64, *c64, *c128;
  uint64_t hash;
  uint8_t domain;
};
struct Kernel
{
  std::string so, sym;
  int dtype;        // 0 f64, 1 f32, 2 c128, 3 c64
  void *fn = nullptr;
};
struct Job
{
  int k, status;
  long nA, nW, slot, off;
  int e[2], p[2];
  std::vector<double> W, C, X, E;
  double scale;
};
struct Call
{
  int job;
  double p;
  long n0, n1;
};
std::vector<Kernel> kernels;
std::vector<Job> jobs;

template<typename R> R *buffer(const std::vector<double> &v)
{
  R *b = static_cast<R *>(rt::talloc(sizeof(R) * v.size(), true));
  for (std::size_t i = 0; i < v.size(); ++i) b[i] = static_cast<R>(v[i]);
  return b;
}

template<typename R> void run_job(const Call &c, bool cplx, int slotno)
{
  const Job &j = jobs[c.job];
  const Kernel &k = kernels[j.k];
  const long nA = j.nA * (cplx ? 2 : 1);
  std::vector<double> A0(nA);
  for (long i = 0; i < nA; ++i) A0[i] = 0.25 * ((i * 7 + slotno * 3 + c.job) % 13);
  R *A = buffer<R>(A0), *W = buffer<R>(j.W), *C = buffer<R>(j.C), *X = buffer<R>(j.X);
  int *e = static_cast<int *>(rt::talloc(2 * sizeof(int), true));
  uint8_t *p = static_cast<uint8_t *>(rt::talloc(2, true));
  for (int i = 0; i < 2; ++i) { e[i] = j.e[i]; p[i] = static_cast<uint8_t>(j.p[i]); }
  const ptrdiff_t off = j.off;
  memcpy(reinterpret_cast<char *>(W) + j.slot, &off, sizeof off);
  std::vector<R> W0(W, W + j.W.size());
  rt::Arm a;
  a.p = c.p;
  a.nth[0] = c.n0;
  a.nth[1] = c.n1;
  using Fn = void (*)(R *, const R *, const R *, const R *, const int *, const uint8_t *, void *);
  bool threw = false;
  rt::yield("kernel call");
  rt::arm(a);
  try {
    rt::Under u;
    reinterpret_cast<Fn>(k.fn)(A, W, C, X, e, p, nullptr);
  } catch (...) {
    threw = true;
  }
  const int failed = rt::disarm();
  if (threw) rt::violation("exception-escaped", "an exception left a kernel");
  for (const void *b : { (void *)A, (void *)W, (void *)C, (void *)X, (void *)e, (void *)p }) rt::check_redzones(b, "kernel call");
  if (memcmp(W, W0.data(), sizeof(R) * W0.size()) != 0) rt::violation("input-changed", "the kernel changed its coefficients");
  bool same = true, right = true;
  long bad = -1;
  const double tol = (sizeof(R) == 8 ? 1e-9 : 2e-3) * j.scale;
  for (long i = 0; i < nA; ++i) {
    if (A[i] != static_cast<R>(A0[i])) same = false;
    const double x = static_cast<double>(A[i]) - A0[i];
    if (!(std::fabs(x - j.E[i]) <= tol)) { right = false; if (bad < 0) bad = i; }
  }
  const char *st[] = { "empty", "cut", "full" };
  rt::log("kernel %d job %d %s failed %d -> %s", j.k, c.job, st[j.status], failed, right ? "right" : same ? "unchanged" : "wrong");
  if (!right) {
    char m[300];
    snprintf(m, sizeof m, "%s entity of kernel %d: entry %ld changed by %.12g instead of %.12g", st[j.status], j.k, bad,
      static_cast<double>(A[bad]) - A0[bad], j.E[bad]);
    if (!failed) rt::violation("wrong-tensor", m);
    else if (!same) rt::violation("partial-tensor", std::string("after a failed allocation, ") + m);
    else rt::probe("refused");
  } else
    rt::probe(j.status == 1 ? "cut-right" : j.status == 2 ? "full-right" : "empty-right");
  for (void *b : { (void *)A, (void *)W, (void *)C, (void *)X, (void *)e, (void *)p }) rt::tfree(b);
}

void run_call(const Call &c, int slotno)
{
  switch (kernels[jobs[c.job].k].dtype) {
  case 0: run_job<double>(c, false, slotno); break;
  case 1: run_job<float>(c, false, slotno); break;
  case 2: run_job<double>(c, true, slotno); break;
  default: run_job<float>(c, true, slotno); break;
  }
}

void numbers(std::istream &in, std::vector<double> &v)
{
  long n;
  in >> n;
  v.resize(static_cast<std::size_t>(n));
  std::string t;
  for (auto &x : v) {
    in >> t;
    x = strtod(t.c_str(), nullptr);
  }
}

[[noreturn]] void workload(const rt::Setup &s, std::istream &in)
{
  int nk, nj, nt;
  in >> nk;
  kernels.resize(static_cast<std::size_t>(nk));
  for (auto &k : kernels) {
    in >> k.so >> k.sym >> k.dtype;
    void *h = dlopen(k.so.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) rt::harness_error(std::string("dlopen: ") + dlerror());
    auto *i = static_cast<Integral *>(dlsym(h, k.sym.c_str()));
    if (!i) rt::harness_error("no symbol " + k.sym);
    k.fn = k.dtype == 0 ? i->f64 : k.dtype == 1 ? i->f32 : k.dtype == 2 ? i->c128 : i->c64;
    if (!k.fn) rt::harness_error("no kernel function in " + k.sym);
  }
  in >> nj;
  jobs.resize(static_cast<std::size_t>(nj));
  for (auto &j : jobs) {
    in >> j.k >> j.status >> j.nA >> j.slot >> j.off >> j.e[0] >> j.e[1] >> j.p[0] >> j.p[1];
    std::string t;
    in >> t;
    j.scale = strtod(t.c_str(), nullptr);
    numbers(in, j.W);
    numbers(in, j.C);
    numbers(in, j.X);
    numbers(in, j.E);
  }
  in >> nt;
  std::vector<std::vector<Call>> calls(static_cast<std::size_t>(nt));
  for (auto &v : calls) {
    int n;
    in >> n;
    v.resize(static_cast<std::size_t>(n));
    for (auto &c : v) in >> c.job >> c.p >> c.n0 >> c.n1;
  }
  if (!in) rt::harness_error("bad workload");
  rt::begin(s);
  std::vector<std::function<void()>> bodies;
  for (auto &v : calls)
    bodies.push_back([&v] {
      int slot = 0;
      for (auto &c : v) run_call(c, slot++);
    });
  rt::run_threads(bodies);
  rt::log("faults over");
  // Nothing fails any more: every kernel is right, in any order.
  std::vector<std::function<void()>> last;
  last.push_back([] {
    for (int j = 0; j < int(jobs.size()); ++j) run_call(Call{ j, 0, 0, 0 }, j);
    for (int j = int(jobs.size()) - 1; j >= 0; --j) run_call(Call{ j, 0, 0, 0 }, j);
  });
  rt::run_threads(last);
  rt::finish();
}
}// namespace

int main(int argc, char **argv)
{
  return server::serve(argc, argv, workload);
}
