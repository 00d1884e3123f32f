// Workload and oracles for qugar's C++ core: implicit domains, cut quadratures,
// reparametrizations and VTK output. Real qugar sources (instrumented); algoim is
// a stand-in (cppsim/algoim), Bezier reparametrization is not linked.
#include "rt.h"
#include "server.h"

#include <qugar/bbox.hpp>
#include <qugar/bezier_tp.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/cut_quadrature.hpp>
#include <qugar/impl_funcs_lib.hpp>
#include <qugar/impl_reparam.hpp>
#include <qugar/impl_reparam_mesh.hpp>
#include <qugar/impl_unfitted_domain.hpp>
#include <qugar/primitive_funcs_lib.hpp>
#include <qugar/quadrature.hpp>
#include <qugar/reparam_mesh.hpp>
#include <qugar/tpms_lib.hpp>

#include <algoim/bernstein.hpp>

#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <sys/uio.h>

using namespace qugar;
using qugar::impl::ImplicitFunc;
using qugar::impl::UnfittedImplDomain;
namespace fn = qugar::impl::funcs;
using Vec = std::vector<double>;

// ------------------------------------------------------------ simulated disk
namespace disk {
struct File { int fd = -1; bool open = false; };
std::map<std::string, std::string> *done = nullptr;    // closed files, whole content
struct Open { std::string path; std::string data; bool live = false; FILE *f = nullptr; };
constexpr int MAXFD = 1024;
Open *fds[MAXFD];
thread_local double p = 0;      // probability of a fault per call
thread_local long left = -1;    // bytes until the disk is full, -1: no limit
thread_local int hit = 0;       // faults that lost data in this call
const char *why = "";
bool mine(const char *path) { return path && (strncmp(path, "/simfs/", 7) == 0 || strncmp(path, "simfs/", 6) == 0); }
bool quiet_chance(double q)
{
  if (q <= 0) return false;
  return rt::chance(q);
}
// One write of n bytes: how many are taken, or -1 with errno.
ssize_t take(Open *o, const char *b, std::size_t n)
{
  if (left >= 0 && static_cast<long>(n) > left) {
    if (left > 0) {
      const auto k = static_cast<std::size_t>(left);
      o->data.append(b, k);
      left = 0;
      rt::count_fault("short write");
      return static_cast<ssize_t>(k);
    }
    rt::count_fault("disk full");
    ++hit;
    errno = ENOSPC;
    return -1;
  }
  if (quiet_chance(p)) {
    switch (rt::decide(3, [] { return int(rt::rnd() % 3); })) {
    case 0: rt::count_fault("write error"); ++hit; errno = EIO; return -1;
    case 1: rt::count_fault("interrupted write"); errno = EINTR; return -1;
    default:
      if (n > 1) {
        const auto k = n / 2;
        rt::count_fault("short write");
        o->data.append(b, k);
        if (left >= 0) left -= static_cast<long>(k);
        return static_cast<ssize_t>(k);
      }
    }
  }
  o->data.append(b, n);
  if (left >= 0) left -= static_cast<long>(n);
  return static_cast<ssize_t>(n);
}
Open *of(int fd) { return fd >= 0 && fd < MAXFD && fds[fd] && fds[fd]->live ? fds[fd] : nullptr; }
FILE *open(const char *path, const char *mode)
{
  rt::Quiet q;
  if (quiet_chance(p)) {
    rt::count_fault("open failure");
    ++hit;
    errno = EACCES;
    return nullptr;
  }
  if (!done) done = new std::map<std::string, std::string>;
  static auto real = reinterpret_cast<FILE *(*)(const char *, const char *)>(dlsym(RTLD_NEXT, "fopen64"));
  FILE *f = real("/dev/null", "w");
  if (!f) return nullptr;
  auto *o = new Open;
  o->path = path;
  o->live = true;
  o->f = f;
  if (mode[0] == 'a' && done->count(path)) o->data = (*done)[path];
  else (*done)[path] = "";
  fds[fileno(f)] = o;
  return f;
}
}// namespace disk
extern "C" {
FILE *fopen64(const char *path, const char *mode)
{
  if (disk::mine(path)) return disk::open(path, mode);
  static auto f = reinterpret_cast<FILE *(*)(const char *, const char *)>(dlsym(RTLD_NEXT, "fopen64"));
  return f(path, mode);
}
FILE *fopen(const char *path, const char *mode)
{
  if (disk::mine(path)) return disk::open(path, mode);
  static auto f = reinterpret_cast<FILE *(*)(const char *, const char *)>(dlsym(RTLD_NEXT, "fopen"));
  return f(path, mode);
}
int fclose(FILE *fp)
{
  static auto f = reinterpret_cast<int (*)(FILE *)>(dlsym(RTLD_NEXT, "fclose"));
  disk::Open *o = fp ? disk::of(fileno(fp)) : nullptr;
  bool bad = false;
  if (o) {
    rt::Quiet q;
    o->live = false;
    bad = disk::quiet_chance(disk::p);
    if (bad) { rt::count_fault("close failure"); ++disk::hit; }
    (*disk::done)[o->path] = o->data;
  }
  int r = f(fp);
  if (bad) { errno = EIO; return EOF; }
  return r;
}
ssize_t write(int fd, const void *b, size_t n)
{
  static auto f = reinterpret_cast<ssize_t (*)(int, const void *, size_t)>(dlsym(RTLD_NEXT, "write"));
  disk::Open *o = disk::of(fd);
  if (!o) return f(fd, b, n);
  rt::Quiet q;
  return disk::take(o, static_cast<const char *>(b), n);
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
  static auto f = reinterpret_cast<ssize_t (*)(int, const struct iovec *, int)>(dlsym(RTLD_NEXT, "writev"));
  disk::Open *o = disk::of(fd);
  if (!o) return f(fd, v, n);
  rt::Quiet q;
  std::string all;
  for (int i = 0; i < n; ++i) all.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
  return disk::take(o, all.data(), all.size());
}
}

namespace {
// ------------------------------------------------------------------ functions
struct UserError : std::exception
{
  const char *what() const noexcept override { return "simulated failure of the user's function"; }
};
thread_local long ev_left = 0;   // >0: the nth evaluation throws
thread_local int ev_hit = 0;
void evaluated()
{
  if (ev_left > 0 && --ev_left == 0) {
    ++ev_hit;
    rt::Quiet q;
    rt::count_fault("user function throws");
    throw UserError();
  }
}
// A user's implicit function: forwards, and may fail.
template<int dim> struct UserFunc : ImplicitFunc<dim>
{
  using Base = ImplicitFunc<dim>;
  using I = ::algoim::Interval<dim>;
  std::shared_ptr<const Base> f;
  explicit UserFunc(std::shared_ptr<const Base> g) : f(std::move(g)) {}
  real operator()(const Point<dim> &p) const override { evaluated(); return (*f)(p); }
  I operator()(const Point<dim, I> &p) const override { evaluated(); return (*f)(p); }
  typename Base::template Gradient<real> grad(const Point<dim> &p) const override { evaluated(); return f->grad(p); }
  typename Base::template Gradient<I> grad(const Point<dim, I> &p) const override { evaluated(); return f->grad(p); }
  typename Base::template Hessian<real> hessian(const Point<dim> &p) const override { evaluated(); return f->hessian(p); }
};

struct Spec
{
  int dim, kind, subset;
  int n[3];
  double lo[3], hi[3];
  double a[8];
  std::vector<std::int64_t> cells;
};
std::vector<Spec> specs;

template<int dim> Point<dim> pt(const double *a)
{
  Point<dim> p;
  for (int i = 0; i < dim; ++i) p(i) = a[i];
  return p;
}
template<int dim> using FPtr = std::shared_ptr<const ImplicitFunc<dim>>;

template<int dim> FPtr<dim> base_func(const Spec &s)
{
  const double *a = s.a;
  const auto c = pt<dim>(a + 1);
  const auto v = pt<dim>(a + 4);
  switch (s.kind) {
  case 0: return std::make_shared<fn::Plane<dim>>(c, v);
  case 1: return std::make_shared<fn::Sphere<dim>>(a[0], c);
  case 2: return std::make_shared<fn::Ellipsoid<dim>>(v, qugar::impl::RefSystem<dim>(c));
  case 3:
    if constexpr (dim == 2) return std::make_shared<fn::Annulus>(a[0] * 0.5, a[0], c);
    else return std::make_shared<fn::Cylinder>(a[0], c, v);
  case 4: return std::make_shared<fn::SphereBzr<dim>>(a[0], c);
  case 5: return std::make_shared<fn::PlaneBzr<dim>>(c, v);
  case 6: return std::make_shared<fn::Negative<dim>>(std::make_shared<fn::Sphere<dim>>(a[0], c));
  case 7:
    return std::make_shared<fn::AddFunctions<dim>>(std::make_shared<fn::Sphere<dim>>(a[0], c), std::make_shared<fn::Plane<dim>>(c, v));
  default: break;
  }
  rt::harness_error("unknown function kind");
}
bool is_bzr(const Spec &s) { return s.kind == 4 || s.kind == 5; }
template<int dim> FPtr<dim> make_func(const Spec &s)
{
  auto f = base_func<dim>(s);
  if (is_bzr(s)) return f;
  return std::make_shared<UserFunc<dim>>(f);
}
template<int dim> std::shared_ptr<const CartGridTP<dim>> make_grid(const Spec &s)
{
  std::array<std::size_t, dim> n;
  for (int i = 0; i < dim; ++i) n[static_cast<std::size_t>(i)] = static_cast<std::size_t>(s.n[i]);
  return std::make_shared<const CartGridTP<dim>>(BoundBox<dim>(pt<dim>(s.lo), pt<dim>(s.hi)), n);
}
template<int dim> using DPtr = std::shared_ptr<const UnfittedImplDomain<dim>>;
template<int dim> DPtr<dim> make_domain(const Spec &s, const FPtr<dim> &f)
{
  const auto g = make_grid<dim>(s);
  if (s.subset) return std::make_shared<const UnfittedImplDomain<dim>>(f, g, s.cells);
  return std::make_shared<const UnfittedImplDomain<dim>>(f, g);
}

struct Op
{
  char code;
  int dom;
  int n, x, y;                       // points per direction and flags
  std::vector<std::int64_t> cells;
  std::vector<int> facets;
  Vec box;                           // G
};
std::vector<Op> ops;
struct Call
{
  int op;
  double p;
  long nth, ev;
  double pdisk;
  long space;
};

// The outcome of an operation, as plain numbers.
struct Blob
{
  std::vector<Vec> s;
  std::vector<std::string> files;
  bool operator==(const Blob &o) const
  {
    if (s.size() != o.s.size() || files != o.files) return false;
    for (std::size_t i = 0; i < s.size(); ++i)
      if (s[i].size() != o.s[i].size() || (!s[i].empty() && std::memcmp(s[i].data(), o.s[i].data(), 8 * s[i].size()) != 0)) return false;
    return true;
  }
  template<typename T> void add(const std::vector<T> &v) { s.emplace_back(v.begin(), v.end()); }
  template<int d> void add(const std::vector<Point<d>> &v)
  {
    Vec o;
    o.reserve(v.size() * d);
    for (const auto &p : v)
      for (int i = 0; i < d; ++i) o.push_back(p(i));
    s.push_back(std::move(o));
  }
  std::string differs(const Blob &o) const
  {
    char b[200];
    if (s.size() != o.s.size()) return "a different number of lists";
    for (std::size_t i = 0; i < s.size(); ++i) {
      if (s[i].size() != o.s[i].size()) {
        snprintf(b, sizeof b, "list %zu has %zu entries instead of %zu", i, s[i].size(), o.s[i].size());
        return b;
      }
      for (std::size_t k = 0; k < s[i].size(); ++k)
        if (std::memcmp(&s[i][k], &o.s[i][k], 8) != 0) {
          snprintf(b, sizeof b, "list %zu entry %zu is %.17g instead of %.17g", i, k, s[i][k], o.s[i][k]);
          return b;
        }
    }
    if (files.size() != o.files.size()) return "a different number of files";
    for (std::size_t i = 0; i < files.size(); ++i)
      if (files[i] != o.files[i]) {
        std::size_t k = 0;
        while (k < files[i].size() && k < o.files[i].size() && files[i][k] == o.files[i][k]) ++k;
        snprintf(b, sizeof b, "file %zu has %zu bytes instead of %zu (first difference at %zu)", i, files[i].size(), o.files[i].size(), k);
        return b;
      }
    return "nothing";
  }
};

const char *op_name(char c)
{
  switch (c) {
  case 'B': return "build";
  case 'A': return "classify";
  case 'C': return "targeted query";
  case 'Q': return "cell quadrature";
  case 'U': return "unfitted boundary quadrature";
  case 'I': return "interior facet quadrature";
  case 'E': return "exterior facet quadrature";
  case 'R': return "reparametrization";
  case 'L': return "level-set reparametrization";
  case 'V': return "VTK file";
  case 'G': return "tensor-product quadrature";
  case 'P': return "grid";
  default: return "?";
  }
}
std::string vtk_base(const Op &o) { return std::string(o.y ? "simfs/results.d/mesh" : "/simfs/out") + std::to_string(&o - ops.data()); }

// Runs `f` as code under test.
template<typename F> auto under(F f)
{
  rt::Under u;
  return f();
}

template<int dim> void classify(const UnfittedImplDomain<dim> &d, const Spec &s, Blob &b)
{
  std::vector<std::int64_t> c;
  std::vector<int> l;
  under([&] { d.get_full_cells(c); });  b.add(c);
  under([&] { d.get_empty_cells(c); }); b.add(c);
  under([&] { d.get_cut_cells(c); });   b.add(c);
  Vec counts = under([&] { return Vec{ double(d.get_num_total_cells()), double(d.get_num_full_cells()), double(d.get_num_empty_cells()),
    double(d.get_num_cut_cells()), double(d.has_facets_with_unf_bdry()) }; });
  b.add(counts);
  // Facet lists come in hash order: compared as sets.
  const auto facets = [&](auto get) {
    under([&] { get(c, l); });
    std::vector<double> o;
    for (std::size_t i = 0; i < c.size(); ++i) o.push_back(double(c[i] * 2 * dim + l[i]));
    if (c.size() != l.size()) o.push_back(-1);
    std::sort(o.begin(), o.end());
    b.add(o);
  };
  facets([&](auto &x, auto &y) { d.get_full_facets(x, y); });
  facets([&](auto &x, auto &y) { d.get_empty_facets(x, y); });
  facets([&](auto &x, auto &y) { d.get_cut_facets(x, y); });
  facets([&](auto &x, auto &y) { d.get_full_unfitted_facets(x, y); });
  facets([&](auto &x, auto &y) { d.get_unfitted_facets(x, y); });
  std::vector<std::int64_t> all;
  if (s.subset) all = s.cells;
  else
    for (std::int64_t i = 0, n = std::int64_t(d.get_num_total_cells()); i < n; ++i) all.push_back(i);
  Vec flags, ff;
  for (const auto i : all)
    under([&] {
      flags.push_back(d.is_full_cell(i) + 2 * d.is_empty_cell(i) + 4 * d.is_cut_cell(i) + 8 * d.is_full_with_unf_bdry_cell(i)
                      + 16 * d.is_cell_with_unf_bdry(i));
      for (int f = 0; f < 2 * dim; ++f)
        ff.push_back(d.is_full_facet(i, f) + 2 * d.is_empty_facet(i, f) + 4 * d.is_cut_facet(i, f) + 8 * d.is_full_unfitted_facet(i, f)
                     + 16 * d.has_unfitted_boundary(i, f) + 32 * d.has_external_boundary(i, f) + 64 * d.is_exterior_facet(i, f));
    });
  b.add(flags);
  b.add(ff);
}

template<int dim, bool ls> void reparam(const UnfittedImplDomain<dim> &d, const Op &o, Blob &b)
{
  using M = ReparamMesh<ls ? dim - 1 : dim, dim>;
  const std::shared_ptr<const M> m = under([&]() -> std::shared_ptr<const M> {
    if (o.cells.size() == 1 && o.cells[0] == -1) return qugar::create_reparameterization<dim, ls>(d, o.n, o.x != 0);
    return qugar::create_reparameterization<dim, ls>(d, o.cells, o.n, o.x != 0);
  });
  b.add(std::vector<double>{ double(m->get_order()), double(m->get_num_cells()), double(m->get_num_points()), double(m->get_num_points_per_cell()) });
  b.template add<dim>(m->get_points());
  b.add(m->get_connectivity());
  b.add(m->get_wires_connectivity());
  if (o.code == 'V') {
    // Each thread writes its own files, and they are compared under one name.
    const std::string base = vtk_base(o), mark = "_t" + std::to_string(rt::self()) + "_", mine = base + mark;
    under([&] { m->write_VTK_file(mine); });
    rt::Quiet q;
    for (const char *e : { ".vtu", "_wb.vtu", ".vtmb" }) {
      std::string text = "(no file)";
      if (disk::done) {
        const auto it = disk::done->find(mine + e);
        if (it != disk::done->end()) text = it->second;
      }
      for (std::size_t i = 0; (i = text.find(mark, i)) != std::string::npos;) text.erase(i, mark.size());
      b.files.push_back(text);
    }
  }
}

template<int dim> void exec(const Op &o, const DPtr<dim> &shared, Blob &b)
{
  const Spec &s = specs[std::size_t(o.dom)];
  const auto &d = shared;
  switch (o.code) {
  case 'B': {
    const auto f = make_func<dim>(s);
    const auto mine = under([&] { return make_domain<dim>(s, f); });
    classify<dim>(*mine, s, b);
    break;
  }
  case 'A': classify<dim>(*d, s, b); break;
  case 'C': {
    std::vector<std::int64_t> c;
    std::vector<int> l;
    under([&] { d->get_full_cells(o.cells, c); });  b.add(c);
    under([&] { d->get_empty_cells(o.cells, c); }); b.add(c);
    under([&] { d->get_cut_cells(o.cells, c); });   b.add(c);
    const auto facets = [&](auto get) {
      under([&] { get(c, l); });
      b.add(c);
      b.add(l);
    };
    facets([&](auto &x, auto &y) { d->get_full_facets(o.cells, o.facets, x, y); });
    facets([&](auto &x, auto &y) { d->get_empty_facets(o.cells, o.facets, x, y); });
    facets([&](auto &x, auto &y) { d->get_cut_facets(o.cells, o.facets, x, y); });
    facets([&](auto &x, auto &y) { d->get_full_unfitted_facets(o.cells, o.facets, x, y); });
    facets([&](auto &x, auto &y) { d->get_unfitted_facets(o.cells, o.facets, x, y); });
    break;
  }
  case 'Q': {
    const auto q = under([&] { return create_quadrature<dim>(*d, o.cells, o.n); });
    b.add(q->cells); b.add(q->n_pts_per_cell); b.template add<dim>(q->points); b.add(q->weights);
    break;
  }
  case 'U': {
    const auto q = under([&] { return create_unfitted_bound_quadrature<dim>(*d, o.cells, o.n, o.x != 0, o.y != 0); });
    b.add(q->cells); b.add(q->n_pts_per_cell); b.template add<dim>(q->points); b.add(q->weights); b.template add<dim>(q->normals);
    break;
  }
  case 'I':
  case 'E': {
    const auto q = under([&] {
      return o.code == 'I' ? create_facets_quadrature_interior_integral<dim>(*d, o.cells, o.facets, o.n)
                           : create_facets_quadrature_exterior_integral<dim>(*d, o.cells, o.facets, o.n);
    });
    b.add(q->cells); b.add(q->n_pts_per_facet); b.template add<dim - 1>(q->points); b.add(q->weights); b.add(q->local_facet_ids);
    break;
  }
  case 'R': reparam<dim, false>(*d, o, b); break;
  case 'L': reparam<dim, true>(*d, o, b); break;
  case 'V':
    if (o.facets.size() == 1 && o.facets[0]) reparam<dim, true>(*d, o, b);
    else reparam<dim, false>(*d, o, b);
    break;
  case 'G': {
    std::array<int, dim> n;
    n.fill(o.n);
    n[0] = o.n + o.y;
    const BoundBox<dim> box(pt<dim>(o.box.data()), pt<dim>(o.box.data() + 3));
    const auto q = under([&] { return o.x ? Quadrature<dim>::create_tanh_sinh(n, box) : Quadrature<dim>::create_Gauss(n, box); });
    b.template add<dim>(q->points()); b.add(q->weights());
    break;
  }
  case 'P': {
    const auto g = under([&] { return make_grid<dim>(s); });
    Vec ids, doms, mid, bd;
    under([&] {
      const auto nc = std::int64_t(g->get_num_cells());
      for (std::int64_t i = 0; i < nc; ++i) {
        const auto t = g->to_tensor(i);
        ids.push_back(double(g->to_flat(t)));
        for (int k = 0; k < dim; ++k) ids.push_back(t(k));
        const auto box = g->get_cell_domain(i);
        for (int k = 0; k < dim; ++k) { doms.push_back(box.min(k)); doms.push_back(box.max(k)); }
        mid.push_back(double(g->get_cell_id(box.mid_point())));
        for (int f = 0; f < 2 * dim; ++f) bd.push_back(g->on_boundary(i, f));
      }
    });
    b.add(ids); b.add(doms); b.add(mid); b.add(bd);
    for (int f = 0; f < 2 * dim; ++f) b.add(under([&] { return g->get_boundary_cells(f); }));
    break;
  }
  default: rt::harness_error("unknown operation");
  }
}

std::vector<DPtr<2>> dom2;
std::vector<DPtr<3>> dom3;
void exec_any(const Op &o, Blob &b)
{
  if (specs[std::size_t(o.dom)].dim == 2) exec<2>(o, dom2[std::size_t(o.dom)], b);
  else exec<3>(o, dom3[std::size_t(o.dom)], b);
}
void build_shared(std::size_t i)
{
  if (specs[i].dim == 2) dom2[i] = under([&] { return make_domain<2>(specs[i], make_func<2>(specs[i])); });
  else dom3[i] = under([&] { return make_domain<3>(specs[i], make_func<3>(specs[i])); });
}

// ------------------------------------------------- reference: a fresh process
std::vector<Blob> refs;
std::vector<std::pair<const char *, std::string>> pending;
void reference(std::size_t k)
{
  int p[2];
  if (pipe(p) != 0) rt::harness_error("pipe");
  const pid_t pid = fork();
  if (pid == 0) {
    alarm(25);
    close(p[0]);
    Blob b;
    build_shared(std::size_t(ops[k].dom));
    exec_any(ops[k], b);
    std::string o;
    const auto put = [&o](const void *x, std::size_t n) { o.append(static_cast<const char *>(x), n); };
    std::size_t n = b.s.size();
    put(&n, 8);
    for (const auto &v : b.s) { n = v.size(); put(&n, 8); put(v.data(), 8 * n); }
    n = b.files.size();
    put(&n, 8);
    for (const auto &v : b.files) { n = v.size(); put(&n, 8); put(v.data(), n); }
    std::size_t at = 0;
    while (at < o.size()) {
      const ssize_t w = write(p[1], o.data() + at, o.size() - at);
      if (w <= 0) _exit(3);
      at += std::size_t(w);
    }
    _exit(0);
  }
  close(p[1]);
  std::string in;
  char buf[65536];
  ssize_t r;
  while ((r = read(p[0], buf, sizeof buf)) > 0) in.append(buf, std::size_t(r));
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    const int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    pending.emplace_back(sig == SIGALRM ? "hang" : "crash",
      std::string(op_name(ops[k].code)) + " alone in a fresh process " + (sig == SIGALRM ? "did not end within 25 s" : "died: ") + (sig ? strsignal(sig) : "exit"));
    return;
  }
  const char *x = in.data();
  const auto get = [&x](void *y, std::size_t n) { memcpy(y, x, n); x += n; };
  std::size_t n, m;
  Blob &b = refs[k];
  get(&n, 8);
  for (std::size_t i = 0; i < n; ++i) { get(&m, 8); Vec v(m); if (m) get(v.data(), 8 * m); b.s.push_back(std::move(v)); }
  get(&n, 8);
  for (std::size_t i = 0; i < n; ++i) { get(&m, 8); b.files.emplace_back(x, m); x += m; }
}
#include "quad_judge.h"

// --------------------------------------------------------------------- calls
void run_call(const Call &c, bool armed)
{
  const Op &o = ops[std::size_t(c.op)];
  rt::Arm a;
  if (armed) { a.p = c.p; a.nth[0] = c.nth; ev_left = c.ev; disk::p = c.pdisk; disk::left = c.space; }
  ev_hit = 0;
  disk::hit = 0;
  Blob b;
  std::string threw;
  rt::yield("call");
  rt::arm(a);
  try {
    exec_any(o, b);
  } catch (const std::exception &e) {
    rt::Quiet q;
    threw = e.what();
    if (threw.empty()) threw = "?";
  } catch (...) {
    threw = "unknown exception";
  }
  const int failed = rt::disarm();
  ev_left = 0;
  disk::p = 0;
  disk::left = -1;
  rt::Quiet q;
  const bool fault = failed || ev_hit || disk::hit;
  rt::log("%s %d on %d: %s (failed allocations %d, user errors %d, disk errors %d)", op_name(o.code), c.op, o.dom,
    threw.empty() ? "done" : threw.c_str(), failed, ev_hit, disk::hit);
  if (!threw.empty()) {
    if (!fault) rt::violation("spurious-failure", std::string(op_name(o.code)) + " failed although nothing was injected: " + threw);
    else { rt::probe("refused"); rt::probe(failed ? "refused-alloc" : ev_hit ? "refused-user" : "refused-disk"); }
    return;
  }
  if (b == refs[std::size_t(c.op)]) {
    rt::probe(op_name(o.code));
    return;
  }
  const std::string m = std::string(op_name(o.code)) + (fault ? " reported success after an injected failure but " : " ")
                        + "differs from the same call in a fresh process: " + b.differs(refs[std::size_t(c.op)]);
  rt::violation(o.code == 'V' && disk::hit ? "lost-file" : o.code == 'V' ? "wrong-file" : fault ? "swallowed-failure" : "depends-on-history", m);
}

void numbers(std::istream &in, double *v, int n)
{
  std::string t;
  for (int i = 0; i < n; ++i) {
    in >> t;
    v[i] = strtod(t.c_str(), nullptr);
  }
}
template<typename T> void list(std::istream &in, std::vector<T> &v)
{
  long n;
  in >> n;
  if (!in || n < 0 || n > 100000) rt::harness_error("bad list");
  v.resize(std::size_t(n));
  for (auto &x : v) in >> x;
}

[[noreturn]] void workload(const rt::Setup &s, std::istream &in)
{
  std::size_t n;
  in >> n;
  specs.resize(n);
  for (auto &d : specs) {
    in >> d.dim >> d.kind >> d.subset >> d.n[0] >> d.n[1] >> d.n[2];
    numbers(in, d.lo, 3);
    numbers(in, d.hi, 3);
    numbers(in, d.a, 8);
    list(in, d.cells);
  }
  dom2.resize(n);
  dom3.resize(n);
  in >> n;
  ops.resize(n);
  for (auto &o : ops) {
    in >> o.code >> o.dom >> o.n >> o.x >> o.y;
    list(in, o.cells);
    list(in, o.facets);
    o.box.resize(6);
    numbers(in, o.box.data(), 6);
  }
  in >> n;
  std::vector<std::vector<Call>> calls(n);
  for (auto &v : calls) {
    in >> n;
    v.resize(n);
    for (auto &c : v) in >> c.op >> c.p >> c.nth >> c.ev >> c.pdisk >> c.space;
  }
  if (!in) rt::harness_error("bad workload");
  rt::limit_accesses(1500000);
  refs.resize(ops.size());
  for (std::size_t k = 0; k < ops.size(); ++k) reference(k);
  rt::begin(s);
  {
    rt::Quiet q;
    for (const auto &v : pending) rt::violation(v.first, v.second);
    judge_all();
  }
  std::vector<std::function<void()>> first;
  first.push_back([] {
    for (std::size_t i = 0; i < specs.size(); ++i) build_shared(i);
  });
  rt::run_threads(first);
  std::vector<std::function<void()>> bodies;
  for (auto &v : calls)
    bodies.push_back([&v] {
      for (auto &c : v) run_call(c, true);
    });
  rt::run_threads(bodies);
  rt::log("faults over");
  std::vector<std::function<void()>> last;
  last.push_back([] {
    for (int k = int(ops.size()) - 1; k >= 0; --k) run_call(Call{ k, 0, 0, 0, 0, -1 }, false);
  });
  rt::run_threads(last);
  rt::finish();
}
}// namespace

int main(int argc, char **argv)
{
  return server::serve(argc, argv, workload);
}
