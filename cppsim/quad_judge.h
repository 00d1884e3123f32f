// What a correct outcome looks like, judged on the outcome of a fresh process
// (every simulated outcome has to equal that one). Included by quad_main.cpp.
void bad(const char *klass, const Op &o, const std::string &m)
{
  rt::violation(klass, std::string(op_name(o.code)) + " " + std::to_string(&o - ops.data()) + ": " + m);
}
std::string num(double x)
{
  char b[40];
  snprintf(b, sizeof b, "%.12g", x);
  return b;
}

template<int dim> struct Geo
{
  const Spec &s;
  FPtr<dim> f;
  explicit Geo(const Spec &x) : s(x), f(base_func<dim>(x)) {}
  std::int64_t ncells() const
  {
    std::int64_t n = 1;
    for (int i = 0; i < dim; ++i) n *= s.n[i];
    return n;
  }
  void ids(std::int64_t c, int *t) const
  {
    for (int i = 0; i < dim; ++i) { t[i] = int(c % s.n[i]); c /= s.n[i]; }
  }
  double len(int i) const { return (s.hi[i] - s.lo[i]) / s.n[i]; }
  // Image of a point of [0,1]^dim in a cell.
  Point<dim> map(std::int64_t c, const double *x) const
  {
    int t[3];
    ids(c, t);
    Point<dim> p;
    for (int i = 0; i < dim; ++i) p(i) = s.lo[i] + len(i) * (t[i] + x[i]);
    return p;
  }
  bool outer(std::int64_t c, int facet) const
  {
    int t[3];
    ids(c, t);
    return facet % 2 ? t[facet / 2] == s.n[facet / 2] - 1 : t[facet / 2] == 0;
  }
  bool wanted(std::int64_t c) const
  {
    if (!s.subset) return true;
    return std::find(s.cells.begin(), s.cells.end(), c) != s.cells.end();
  }
  struct Sample { double neg, pos, zero; int total; bool low, high; };  // fractions by sign, and whether the sign is certain
  // Samples the cell (facet < 0) or one of its facets.
  Sample sample(std::int64_t c, int facet) const
  {
    const int m = dim == 2 ? (facet < 0 ? 24 : 60) : (facet < 0 ? 10 : 20);
    const int d = facet < 0 ? dim : dim - 1;
    Sample r{ 0, 0, 0, 0, true, true };
    int k[3] = { 0, 0, 0 };
    double hmax = 0;
    for (int i = 0; i < dim; ++i) hmax += len(i) * len(i);
    const double h = std::sqrt(hmax) / m * 0.75;
    while (true) {
      double x[3];
      int j = 0;
      for (int i = 0; i < dim; ++i) x[i] = facet >= 0 && i == facet / 2 ? facet % 2 : (k[j++] + 0.5) / m;
      const auto p = map(c, x);
      const double v = (*f)(p);
      const auto g = f->grad(p);
      double gn = 0;
      for (int i = 0; i < dim; ++i) gn += g(i) * g(i);
      const double tol = 1e-9 * (1 + std::sqrt(gn));
      if (v < -tol) r.neg += 1;
      else if (v > tol) r.pos += 1;
      else r.zero += 1;
      // Certain only when the function cannot change sign between samples.
      const double reach = (std::sqrt(gn) + curvature() * h) * h * 1.5 + 1e-6;
      if (v < reach) r.high = false;
      if (v > -reach) r.low = false;
      ++r.total;
      int i = 0;
      while (i < d && ++k[i] == m) k[i++] = 0;
      if (i == d) break;
    }
    r.neg /= r.total;
    r.pos /= r.total;
    r.zero /= r.total;
    return r;
  }
  double curvature() const
  {
    switch (s.kind) {
    case 0:
    case 5: return 0;
    case 2: {
      double m = 0;
      for (int i = 0; i < dim; ++i) m = std::max(m, 4.0 / (s.a[4 + i] * s.a[4 + i]));
      return m + 4;
    }
    case 3: return dim == 2 ? 40 : 4;
    default: return 4;
    }
  }
};

bool near(double x, double y, double t = 1e-9) { return std::fabs(x - y) <= t; }

template<int dim> void judge_classes(const Op &o, const Blob &b)
{
  const Spec &s = specs[std::size_t(o.dom)];
  const Geo<dim> g(s);
  const std::int64_t nc = g.ncells();
  const Vec &full = b.s[0], &empty = b.s[1], &cut = b.s[2], &cnt = b.s[3];
  const char *names[3] = { "full", "empty", "cut" };
  std::map<std::int64_t, int> st;
  for (int k = 0; k < 3; ++k) {
    const Vec &v = b.s[std::size_t(k)];
    for (std::size_t i = 0; i < v.size(); ++i) {
      if (i && !(v[i - 1] < v[i])) return bad("not-a-partition", o, std::string("the ") + names[k] + " cells are not sorted and distinct");
      if (!(v[i] >= 0 && v[i] < double(nc))) return bad("not-a-partition", o, std::string(names[k]) + " cell " + num(v[i]) + " is not in the grid");
      if (!st.emplace(std::int64_t(v[i]), 1 << k).second) return bad("not-a-partition", o, "cell " + num(v[i]) + " has two statuses");
    }
  }
  if (cnt[0] != double(nc) || cnt[1] != double(full.size()) || cnt[2] != double(empty.size()) || cnt[3] != double(cut.size()))
    return bad("not-a-partition", o, "the numbers of cells do not match the lists");
  std::vector<std::int64_t> all;
  if (s.subset) all = s.cells;
  else
    for (std::int64_t i = 0; i < nc; ++i) all.push_back(i);
  std::set<double> lists[5];
  for (int k = 0; k < 5; ++k) {
    const Vec &v = b.s[std::size_t(4 + k)];
    for (std::size_t i = 0; i < v.size(); ++i) {
      if (i && !(v[i - 1] < v[i])) return bad("not-a-partition", o, "a facet is listed twice");
      lists[k].insert(v[i]);
    }
  }
  const Vec &fl = b.s[9], &ff = b.s[10];
  if (fl.size() != all.size() || ff.size() != all.size() * 2 * dim) return bad("not-a-partition", o, "flags");
  // The stand-in for polynomials works in strips: it can miss what is thinner.
  const auto sliver = [&g](std::int64_t c) {
    const auto sm = g.sample(c, -1);
    return sm.neg < 0.1 || sm.pos < 0.1;
  };
  bool unf = false;
  for (std::size_t i = 0; i < all.size(); ++i) {
    const std::int64_t c = all[i];
    const int w = int(fl[i]);
    const auto it = st.find(c);
    if (it == st.end()) return bad("not-a-partition", o, "cell " + std::to_string(c) + " is neither full, empty nor cut");
    if ((w & 7) != it->second) return bad("queries-disagree", o, "the flags of cell " + std::to_string(c) + " do not match the lists");
    if ((w & 8) && !(w & 1)) return bad("queries-disagree", o, "cell " + std::to_string(c) + " is full with boundary but not full");
    const auto sm = g.sample(c, -1);
    const char *what = nullptr;
    if (sm.low && !(w & 1)) what = "certainly inside but not full";
    else if (sm.high && !(w & 2)) what = "certainly outside but not empty";
    else if (sm.neg > 0.1 && sm.pos > 0.1 && !(w & 4)) what = "clearly cut but not reported as cut";
    if (what) return bad("wrong-cell-status", o, "cell " + std::to_string(c) + " is " + what);
    rt::probe(w & 1 ? "cell-full" : w & 2 ? "cell-empty" : "cell-cut");
    for (int f = 0; f < 2 * dim; ++f) {
      const int x = int(ff[i * 2 * dim + std::size_t(f)]);
      const double id = double(c * 2 * dim + f);
      const std::string me = "facet " + std::to_string(f) + " of cell " + std::to_string(c);
      // The lists and the questions about single facets agree.
      const int bits[5] = { 1, 2, 4, 8, 16 };
      for (int k = 0; k < 5; ++k)
        if (lists[k].count(id) != std::size_t((x & bits[k]) != 0)) return bad("queries-disagree", o, me + ": the lists and the flags differ");
      if (((x & 64) != 0) != g.outer(c, f)) return bad("wrong-facet-status", o, me + ": wrong about being on the grid's boundary");
      const int kinds = ((x & 1) != 0) + ((x & 2) != 0) + ((x & 4) != 0) + ((x & 8) != 0);
      if (kinds > 1) return bad("queries-disagree", o, me + " has several statuses");
      if (x & 16) unf = true;
      const auto fs = g.sample(c, f);
      const char *fw = nullptr;
      if (fs.low && !(x & 1)) fw = "certainly inside but not full";
      else if (fs.high && !(x & 2)) fw = "certainly outside but not empty";
      else if (fs.neg > 0.15 && fs.pos > 0.15 && !(x & 4) && !(is_bzr(s) && sliver(c))) fw = "clearly cut but not reported as cut";
      if (fw && is_bzr(s) && !sm.low && !sm.high && sliver(c)) fw = nullptr;
      if (fw) return bad("wrong-facet-status", o, me + " is " + fw);
    }
  }
  if (!s.subset && unf != (cnt[4] != 0)) return bad("queries-disagree", o, "has_facets_with_unf_bdry");
  // Neighbours see the facet they share alike, unless the boundary lies on it.
  if (!s.subset)
    for (std::int64_t c = 0; c < nc; ++c) {
      int stride = 1;
      for (int d = 0; d < dim; stride *= s.n[d], ++d) {
        if (g.outer(c, 2 * d + 1)) continue;
        const int x = int(ff[std::size_t(c * 2 * dim + 2 * d + 1)]), y = int(ff[std::size_t((c + stride) * 2 * dim + 2 * d)]);
        const auto fs = g.sample(c, 2 * d + 1);
        if (fs.zero > 0 || fs.neg < 0.02 || fs.pos < 0.02) continue;
        if (is_bzr(s) && (fs.neg < 0.15 || fs.pos < 0.15 || sliver(c) || sliver(c + stride))) continue;
        if ((x & 7) != (y & 7)) return bad("wrong-facet-status", o, "cells " + std::to_string(c) + " and " + std::to_string(c + stride) + " disagree about the facet they share");
      }
    }
}

template<int dim> void judge_query(const Op &o, const Blob &b, const std::map<int, const Blob *> &classes)
{
  const auto it = classes.find(o.dom);
  if (it == classes.end()) return;
  const Blob &a = *it->second;
  for (int k = 0; k < 3; ++k) {
    Vec want;
    for (const auto c : o.cells)
      if (std::find(a.s[std::size_t(k)].begin(), a.s[std::size_t(k)].end(), double(c)) != a.s[std::size_t(k)].end()) want.push_back(double(c));
    std::sort(want.begin(), want.end());
    if (want != b.s[std::size_t(k)]) return bad("queries-disagree", o, "the cells among the targets are not those of the whole domain");
  }
  for (int k = 0; k < 5; ++k) {
    Vec wc, wl;
    const Vec &l = a.s[std::size_t(4 + k)];
    for (std::size_t i = 0; i < o.cells.size(); ++i)
      if (std::binary_search(l.begin(), l.end(), double(o.cells[i] * 2 * dim + o.facets[i]))) {
        wc.push_back(double(o.cells[i]));
        wl.push_back(o.facets[i]);
      }
    if (wc != b.s[std::size_t(3 + 2 * k)] || wl != b.s[std::size_t(4 + 2 * k)])
      return bad("queries-disagree", o, "the facets among the targets are not those of the whole domain");
  }
}

// Common to every quadrature: one count per requested entity, in order.
bool shape(const Op &o, const Blob &b, int d, std::vector<std::size_t> &at)
{
  const Vec &cells = b.s[0], &n = b.s[1], &p = b.s[2], &w = b.s[3];
  bool ok = cells.size() == o.cells.size() && n.size() == o.cells.size();
  for (std::size_t i = 0; ok && i < cells.size(); ++i) ok = cells[i] == double(o.cells[i]);
  if (!ok) { bad("wrong-entities", o, "the entities are not the requested ones, in their order, with one count each"); return false; }
  double sum = 0;
  at.assign(1, 0);
  for (double x : n) {
    if (x < 0) { bad("wrong-entities", o, "a negative number of points"); return false; }
    sum += x;
    at.push_back(std::size_t(sum));
  }
  if (w.size() != std::size_t(sum) || p.size() != std::size_t(sum) * std::size_t(d)) { bad("wrong-entities", o, "the counts do not add up to the points"); return false; }
  for (double x : p)
    if (!(x >= -1e-9 && x <= 1 + 1e-9)) { bad("wrong-points", o, "a point outside the reference cell: " + num(x)); return false; }
  for (double x : w)
    if (!std::isfinite(x)) { bad("wrong-weights", o, "a weight that is not finite"); return false; }
  return true;
}
// n points per direction of the tensor-product Gauss rule on [0,1]^d.
bool tensor_rule(const Blob &b, std::size_t from, std::size_t to, int d, int n)
{
  std::size_t m = 1;
  for (int i = 0; i < d; ++i) m *= std::size_t(n);
  if (to - from != m) return false;
  double s0 = 0, s1[3] = { 0, 0, 0 }, s2[3] = { 0, 0, 0 };
  for (std::size_t i = from; i < to; ++i) {
    s0 += b.s[3][i];
    for (int k = 0; k < d; ++k) {
      const double x = b.s[2][i * std::size_t(d) + std::size_t(k)];
      s1[k] += b.s[3][i] * x;
      s2[k] += b.s[3][i] * x * x;
    }
  }
  bool ok = near(s0, 1, 1e-12);
  for (int k = 0; k < d; ++k) ok = ok && near(s1[k], 0.5, 1e-12) && (n < 2 || near(s2[k], 1.0 / 3, 1e-12));
  return ok;
}

template<int dim> int flags_of(const Blob &a, const Spec &s, std::int64_t c, int facet)
{
  std::size_t i = std::size_t(c);
  if (s.subset) {
    const auto it = std::find(s.cells.begin(), s.cells.end(), c);
    if (it == s.cells.end()) return -1;
    i = std::size_t(it - s.cells.begin());
  }
  return int(facet < 0 ? a.s[9][i] : a.s[10][i * 2 * dim + std::size_t(facet)]);
}

template<int dim> void judge_quad(const Op &o, const Blob &b, const std::map<int, const Blob *> &classes)
{
  const Spec &s = specs[std::size_t(o.dom)];
  const Geo<dim> g(s);
  const bool facet = o.code == 'I' || o.code == 'E';
  const int d = facet ? dim - 1 : dim;
  std::vector<std::size_t> at;
  if (!shape(o, b, d, at)) return;
  if (facet) {
    bool same = b.s[4].size() == o.facets.size();
    for (std::size_t i = 0; same && i < o.facets.size(); ++i) same = b.s[4][i] == double(o.facets[i]);
    if (!same) return bad("wrong-entities", o, "the local facets are not the requested ones");
  }
  if (o.code == 'U' && b.s[4].size() != b.s[2].size()) return bad("wrong-entities", o, "one normal per point is expected");
  const auto it = classes.find(o.dom);
  for (std::size_t k = 0; k < o.cells.size(); ++k) {
    const std::int64_t c = o.cells[k];
    const int lf = facet ? o.facets[k] : -1;
    const std::string me = (facet ? "facet " + std::to_string(lf) + " of " : std::string()) + "cell " + std::to_string(c);
    const std::size_t from = at[k], to = at[k + 1];
    double sum = 0;
    for (std::size_t i = from; i < to; ++i) sum += b.s[3][i];
    const int fl = it == classes.end() ? -1 : flags_of<dim>(*it->second, s, c, lf);
    const int cf = it == classes.end() ? -1 : flags_of<dim>(*it->second, s, c, -1);
    if (fl < 0) continue;
    // Every point is where the domain is.
    for (std::size_t i = from; i < to; ++i) {
      double x[3];
      int j = 0;
      for (int q = 0; q < dim; ++q) x[q] = facet && q == lf / 2 ? lf % 2 : b.s[2][i * std::size_t(d) + std::size_t(j++)];
      const auto p = g.map(c, x);
      const double v = (*g.f)(p);
      const auto gr = g.f->grad(p);
      double gn = 0;
      for (int q = 0; q < dim; ++q) gn += gr(q) * gr(q);
      gn = std::sqrt(gn);
      const double tol = 1e-7 * (1 + gn);
      if (o.code != 'U' && v > tol) return bad("wrong-points", o, me + ": a point outside the domain (value " + num(v) + ")");
      if (o.code == 'U') {
        const double *nv = &b.s[4][i * std::size_t(dim)];
        double nn = 0;
        for (int q = 0; q < dim; ++q) nn += nv[q] * nv[q];
        if (!near(nn, 1, 1e-8)) return bad("wrong-normals", o, me + ": a normal of length " + num(std::sqrt(nn)));
        if (std::fabs(v) > 1e-6 * (1 + gn)) return bad("wrong-points", o, me + ": a point off the boundary (value " + num(v) + ")");
        Vec want(static_cast<std::size_t>(dim));
        double wn = 0;
        for (int q = 0; q < dim; ++q) { want[std::size_t(q)] = gr(q) * g.len(q); wn += want[std::size_t(q)] * want[std::size_t(q)]; }
        wn = std::sqrt(wn);
        double dot = 0;
        for (int q = 0; q < dim; ++q) dot += want[std::size_t(q)] / wn * nv[q];
        if (!(dot > 1 - 1e-6)) return bad("wrong-normals", o, me + ": a normal that is not the gradient's direction in the reference cell");
      }
    }
    if (o.code == 'U') {
      if (!(cf & 16) && to != from) return bad("wrong-entities", o, me + " has no unfitted boundary but points");
      continue;
    }
    const bool full = fl & 1, empty = fl & 2;
    bool none = empty, cover = full;
    if (o.code == 'I' && g.outer(c, lf)) none = true;
    if (o.code == 'E' && !g.outer(c, lf) && !(fl & 16)) none = true;
    if (facet && none) cover = false;
    if (none) {
      if (to != from) return bad("wrong-entities", o, me + " should have no points but has " + std::to_string(to - from));
      continue;
    }
    if (cover) {
      if (!tensor_rule(b, from, to, d, o.n)) return bad("wrong-weights", o, me + " is full but does not get the tensor-product rule");
      continue;
    }
    if (facet && (fl & (8 | 16 | 32))) continue;       // the boundary lies on the facet
    const auto sm = g.sample(c, lf);
    if (sm.zero > 0) continue;
    if (o.n >= 3 && !near(sum, sm.neg, dim == 2 ? 0.06 : 0.12))
      return bad("wrong-weights", o, me + " is covered to " + num(sm.neg) + " but its weights add up to " + num(sum));
    for (std::size_t i = from; i < to; ++i)
      if (!(b.s[3][i] > -1e-12)) return bad("wrong-weights", o, me + ": a negative weight");
  }
}

template<int dim> void judge_rule(const Op &o, const Blob &b)
{
  std::size_t m = std::size_t(o.n + o.y);
  for (int i = 1; i < dim; ++i) m *= std::size_t(o.n);
  const Vec &p = b.s[0], &w = b.s[1];
  if (w.size() != m || p.size() != m * dim) return bad("wrong-entities", o, "not the requested number of points");
  double vol = 1, sum = 0;
  for (int i = 0; i < dim; ++i) vol *= o.box[3 + std::size_t(i)] - o.box[std::size_t(i)];
  Vec s1(static_cast<std::size_t>(dim));
  for (std::size_t k = 0; k < m; ++k) {
    sum += w[k];
    for (int i = 0; i < dim; ++i) {
      const double x = p[k * dim + std::size_t(i)], l = o.box[std::size_t(i)], h = o.box[3 + std::size_t(i)];
      if (!(x >= l - 1e-9 * (1 + std::fabs(l)) && x <= h + 1e-9 * (1 + std::fabs(h)))) return bad("wrong-points", o, "a point outside the box: " + num(x));
      s1[std::size_t(i)] += w[k] * x;
    }
  }
  if (o.x) return;                          // tanh-sinh converges slowly
  if (!near(sum, vol, 1e-10 * vol)) return bad("wrong-weights", o, "the weights add up to " + num(sum) + " instead of " + num(vol));
  for (int i = 0; i < dim; ++i)
    if (!near(s1[std::size_t(i)], vol * 0.5 * (o.box[std::size_t(i)] + o.box[3 + std::size_t(i)]), 1e-9 * vol * 100)) return bad("wrong-points", o, "the rule's first moment is wrong");
}

template<int dim> void judge_grid(const Op &o, const Blob &b)
{
  const Spec &s = specs[std::size_t(o.dom)];
  const Geo<dim> g(s);
  const auto nc = std::size_t(g.ncells());
  if (b.s[0].size() != nc * (dim + 1)) return bad("wrong-grid", o, "number of cells");
  std::vector<Vec> bc(2 * dim);
  for (std::size_t c = 0; c < nc; ++c) {
    int t[3];
    g.ids(std::int64_t(c), t);
    if (b.s[0][c * (dim + 1)] != double(c)) return bad("wrong-grid", o, "flat and tensor indices of cell " + std::to_string(c) + " do not agree");
    for (int k = 0; k < dim; ++k) {
      if (b.s[0][c * (dim + 1) + 1 + std::size_t(k)] != t[k]) return bad("wrong-grid", o, "tensor index of cell " + std::to_string(c));
      const double l = s.lo[k] + g.len(k) * t[k];
      if (!near(b.s[1][c * 2 * dim + 2 * std::size_t(k)], l, 1e-9 * (1 + std::fabs(l))) || !near(b.s[1][c * 2 * dim + 2 * std::size_t(k) + 1], l + g.len(k), 1e-9 * (1 + std::fabs(l))))
        return bad("wrong-grid", o, "domain of cell " + std::to_string(c));
    }
    if (b.s[2][c] != double(c)) return bad("wrong-grid", o, "the mid point of cell " + std::to_string(c) + " is found in cell " + num(b.s[2][c]));
    for (int f = 0; f < 2 * dim; ++f) {
      if ((b.s[3][c * 2 * dim + std::size_t(f)] != 0) != g.outer(std::int64_t(c), f)) return bad("wrong-grid", o, "on_boundary");
      if (g.outer(std::int64_t(c), f)) bc[std::size_t(f)].push_back(double(c));
    }
  }
  for (int f = 0; f < 2 * dim; ++f) {
    Vec v = b.s[4 + std::size_t(f)];
    std::sort(v.begin(), v.end());
    if (v != bc[std::size_t(f)]) return bad("wrong-grid", o, "boundary cells of facet " + std::to_string(f));
  }
}

// Signed measure of a cell with order^d points, from its grid of small boxes.
template<int range> double measure(const Vec &pts, const Vec &conn, std::size_t at, int d, int order)
{
  const auto P = [&](int i, int j, int k, int c) {
    const std::size_t id = std::size_t(conn[at + std::size_t(i + order * (j + order * k))]);
    return pts[id * range + std::size_t(c)];
  };
  double m = 0;
  if (d == 2 && range == 2) {
    for (int j = 0; j + 1 < order; ++j)
      for (int i = 0; i + 1 < order; ++i) {
        const double ax = P(i + 1, j + 1, 0, 0) - P(i, j, 0, 0), ay = P(i + 1, j + 1, 0, 1) - P(i, j, 0, 1);
        const double bx = P(i, j + 1, 0, 0) - P(i + 1, j, 0, 0), by = P(i, j + 1, 0, 1) - P(i + 1, j, 0, 1);
        m += 0.5 * (ax * by - ay * bx);
      }
  } else if (d == 3) {
    // Each small box as six tetrahedra around its diagonal.
    static const int path[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    static const double sign[6] = { 1, -1, -1, 1, 1, -1 };
    for (int k = 0; k + 1 < order; ++k)
      for (int j = 0; j + 1 < order; ++j)
        for (int i = 0; i + 1 < order; ++i)
          for (int t = 0; t < 6; ++t) {
            double v[3][3];
            int q[3] = { i, j, k };
            for (int a = 0; a < 3; ++a) {
              ++q[path[t][a]];
              for (int c = 0; c < 3; ++c) v[a][c] = P(q[0], q[1], q[2], c) - P(i, j, k, c);
            }
            m += sign[t] / 6
                 * (v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0])
                    + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]));
          }
  }
  return m;
}

// Tangents (and the point) at the centre of a cell, as the Lagrange element it is.
template<int dim> void centre_tangents(const Vec &pts, const Vec &conn, std::size_t at, int order, int d, double J[3][3], double *x0)
{
  Vec x(static_cast<std::size_t>(order)), v(x.size()), dv(x.size());
  for (int i = 0; i < order; ++i)      // equally spaced below order 7, Chebyshev nodes from there on
    x[std::size_t(i)] = order < 7 ? double(i) / (order - 1) : algoim::bernstein::modifiedChebyshevNode(i, order);
  for (std::size_t i = 0; i < x.size(); ++i) {
    v[i] = 1;
    for (std::size_t j = 0; j < x.size(); ++j)
      if (j != i) v[i] *= (0.5 - x[j]) / (x[i] - x[j]);
    for (std::size_t j = 0; j < x.size(); ++j) {
      if (j == i) continue;
      double t = 1 / (x[i] - x[j]);
      for (std::size_t k = 0; k < x.size(); ++k)
        if (k != i && k != j) t *= (0.5 - x[k]) / (x[i] - x[k]);
      dv[i] += t;
    }
  }
  for (int a = 0; a < 3; ++a)
    for (int c = 0; c < 3; ++c) J[a][c] = 0;
  for (int c = 0; c < 3; ++c) x0[c] = 0;
  int q[3];
  std::size_t n = 1;
  for (int i = 0; i < d; ++i) n *= std::size_t(order);
  for (std::size_t id = 0; id < n; ++id) {
    std::size_t r = id;
    for (int c = 0; c < d; ++c) { q[c] = int(r % std::size_t(order)); r /= std::size_t(order); }
    const double *p = &pts[std::size_t(conn[at + id]) * dim];
    for (int a = -1; a < d; ++a) {
      double w = 1;
      for (int c = 0; c < d; ++c) w *= (a == c ? dv : v)[std::size_t(q[c])];
      for (int c = 0; c < dim; ++c) (a < 0 ? x0 : J[a])[c] += w * p[c];
    }
  }
}
template<int dim> double centre_jacobian(const Vec &pts, const Vec &conn, std::size_t at, int order)
{
  double J[3][3], x[3];
  centre_tangents<dim>(pts, conn, at, order, dim, J, x);
  if (dim == 2) return J[0][0] * J[1][1] - J[0][1] * J[1][0];
  return J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0])
         + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]);
}
template<int dim> double centre_normal(const Vec &pts, const Vec &conn, std::size_t at, int order, double *n, double *x)
{
  double J[3][3];
  centre_tangents<dim>(pts, conn, at, order, dim - 1, J, x);
  if (dim == 2) { n[0] = J[0][1]; n[1] = -J[0][0]; }
  else
    for (int c = 0; c < 3; ++c) n[c] = J[0][(c + 1) % 3] * J[1][(c + 2) % 3] - J[0][(c + 2) % 3] * J[1][(c + 1) % 3];
  double s = 0;
  for (int c = 0; c < dim; ++c) s += n[c] * n[c];
  return std::sqrt(s);
}

std::string text_between(const std::string &s, const std::string &a, const std::string &z, std::size_t from = 0)
{
  const auto i = s.find(a, from);
  if (i == std::string::npos) return "?";
  const auto j = s.find(z, i + a.size());
  if (j == std::string::npos) return "?";
  return s.substr(i + a.size(), j - i - a.size());
}
Vec words(const std::string &s)
{
  Vec v;
  const char *p = s.c_str();
  while (true) {
    char *e;
    const double x = strtod(p, &e);
    if (e == p) break;
    v.push_back(x);
    p = e;
  }
  return v;
}
// Where VTK wants the point (i, j, k) of a Lagrange cell with n intervals per
// direction (numbering of its files before version 2.2).
int vtk_index(int i, int j, int k, int d, int n)
{
  const int m = n - 1;
  const bool bi = i == 0 || i == n, bj = j == 0 || j == n, bk = k == 0 || k == n;
  if (d == 1) return i == 0 ? 0 : i == n ? 1 : i + 1;
  if (d == 2) {
    if (bi && bj) return i ? (j ? 2 : 1) : (j ? 3 : 0);
    if (bj) return 4 + (i - 1) + (j ? 2 * m : 0);
    if (bi) return 4 + (j - 1) + (i ? m : 3 * m);
    return 4 + 4 * m + (i - 1) + m * (j - 1);
  }
  const int nb = bi + bj + bk;
  if (nb == 3) return (i ? (j ? 2 : 1) : (j ? 3 : 0)) + (k ? 4 : 0);
  if (nb == 2) {
    if (!bi) return 8 + (i - 1) + (j ? 2 * m : 0) + (k ? 4 * m : 0);
    if (!bj) return 8 + (j - 1) + (i ? m : 3 * m) + (k ? 4 * m : 0);
    return 8 + 8 * m + (k - 1) + m * (i ? (j ? 3 : 1) : (j ? 2 : 0));
  }
  int at = 8 + 12 * m;
  if (nb == 1) {
    if (bi) return at + (j - 1) + m * (k - 1) + (i ? m * m : 0);
    at += 2 * m * m;
    if (bj) return at + (i - 1) + m * (k - 1) + (j ? m * m : 0);
    at += 2 * m * m;
    return at + (i - 1) + m * (j - 1) + (k ? m * m : 0);
  }
  return at + 6 * m * m + (i - 1) + m * ((j - 1) + m * (k - 1));
}
// One .vtu file against the mesh it was written from.
void judge_vtu(const Op &o, const std::string &f, const Vec &pts, const Vec &conn, int range, int d, int order, const char *which)
{
  const auto fail = [&](const std::string &m) { bad("wrong-file", o, std::string(which) + ": " + m); };
  std::size_t ppc = 1;
  for (int i = 0; i < d; ++i) ppc *= std::size_t(order);
  const std::size_t np = pts.size() / std::size_t(range), nc = conn.size() / ppc;
  if (f.find("</VTKFile>") == std::string::npos) return fail("the file does not end");
  if (text_between(f, "NumberOfPoints=\"", "\"") != std::to_string(np) || text_between(f, "NumberOfCells=\"", "\"") != std::to_string(nc)) return fail("numbers of points and cells");
  const auto array = [&](const char *name) {
    const auto i = f.find(std::string("Name=\"") + name + "\"");
    return i == std::string::npos ? Vec() : words(text_between(f, ">", "<", i));
  };
  const Vec P = array("Points"), C = array("connectivity"), O = array("offsets"), T = array("types");
  if (P.size() != 3 * np) return fail("the number of coordinates");
  for (std::size_t i = 0; i < np; ++i)
    for (int c = 0; c < 3; ++c)
      if (P[3 * i + std::size_t(c)] != (c < range ? pts[i * std::size_t(range) + std::size_t(c)] : 0.0)) return fail("coordinate of point " + std::to_string(i));
  if (C.size() != conn.size() || O.size() != nc || T.size() != nc) return fail("the number of cells' entries");
  for (std::size_t k = 0; k < nc; ++k) {
    if (O[k] != double((k + 1) * ppc)) return fail("offsets");
    if (T[k] != (d == 1 ? 68 : d == 2 ? 70 : 72) && (order != 2 || T[k] != (d == 1 ? 3 : d == 2 ? 9 : 12))) return fail("cell type " + num(T[k]));
    Vec x(conn.begin() + std::ptrdiff_t(k * ppc), conn.begin() + std::ptrdiff_t((k + 1) * ppc)), y(C.begin() + std::ptrdiff_t(k * ppc), C.begin() + std::ptrdiff_t((k + 1) * ppc));
    for (std::size_t q = 0; q < ppc; ++q) {
      const int i = int(q % std::size_t(order)), j = d > 1 ? int(q / std::size_t(order)) % order : 0, h = d > 2 ? int(q / std::size_t(order * order)) : 0;
      if (y[std::size_t(vtk_index(i, j, h, d, order - 1))] != x[q]) return fail("the points of cell " + std::to_string(k) + " are not in VTK's order");
    }
  }
}

template<int dim> void judge_mesh(const Op &o, const Blob &b, const std::map<int, const Blob *> &classes)
{
  const Spec &s = specs[std::size_t(o.dom)];
  const Geo<dim> g(s);
  const bool ls = o.code == 'L' || (o.code == 'V' && o.facets.size() == 1 && o.facets[0]);
  const int d = ls ? dim - 1 : dim;
  const Vec &h = b.s[0], &pts = b.s[1], &conn = b.s[2], &wires = b.s[3];
  const int order = o.n;
  std::size_t ppc = 1;
  for (int i = 0; i < d; ++i) ppc *= std::size_t(order);
  const std::size_t np = pts.size() / dim;
  if (h[0] != order || h[1] * double(ppc) != double(conn.size()) || h[2] != double(np) || h[3] != double(ppc)) return bad("broken-mesh", o, "order and sizes do not fit");
  for (double x : conn)
    if (!(x >= 0 && x < double(np))) return bad("broken-mesh", o, "a cell refers to point " + num(x) + " of " + std::to_string(np));
  for (double x : wires)
    if (!(x >= 0 && x < double(np))) return bad("broken-mesh", o, "an edge refers to point " + num(x) + " of " + std::to_string(np));
  if (wires.size() % std::size_t(order)) return bad("broken-mesh", o, "incomplete edges");
  std::set<Vec> edges;
  if (d > 1 || !ls)
    for (std::size_t i = 0; i < wires.size(); i += std::size_t(order)) {
      Vec e(wires.begin() + std::ptrdiff_t(i), wires.begin() + std::ptrdiff_t(i + std::size_t(order)));
      Vec r(e.rbegin(), e.rend());
      if (!edges.insert(std::min(e, r)).second) return bad("broken-mesh", o, "an edge is listed twice");
    }
  std::vector<bool> used(np);
  for (double x : conn) used[std::size_t(x)] = true;
  double scale = 0;
  for (int i = 0; i < dim; ++i) scale = std::max(scale, s.hi[i] - s.lo[i]);
  for (std::size_t i = 0; i < np; ++i) {
    if (!used[i]) return bad("broken-mesh", o, "point " + std::to_string(i) + " belongs to no cell");
    const auto p = pt<dim>(&pts[i * dim]);
    for (int k = 0; k < dim; ++k)
      if (!(p(k) >= s.lo[k] - 1e-7 * scale && p(k) <= s.hi[k] + 1e-7 * scale)) return bad("points-outside", o, "a point outside the grid");
    const double v = (*g.f)(p);
    const auto gr = g.f->grad(p);
    double gn = 0;
    for (int q = 0; q < dim; ++q) gn += gr(q) * gr(q);
    const double tol = 1e-6 * (1 + std::sqrt(gn));
    if (v > tol) return bad("points-outside", o, "a point outside the domain (value " + num(v) + ")");
    if (ls && v < -tol) return bad("points-outside", o, "a point off the level set (value " + num(v) + ")");
  }
  if (o.x) {
    for (std::size_t i = 0; i < np; ++i)
      for (std::size_t j = i + 1; j < np; ++j) {
        double q = 0;
        for (int k = 0; k < dim; ++k) q = std::max(q, std::fabs(pts[i * dim + std::size_t(k)] - pts[j * dim + std::size_t(k)]));
        if (q < 1e-14 * scale) return bad("broken-mesh", o, "points " + std::to_string(i) + " and " + std::to_string(j) + " coincide after merging");
      }
  }
  const auto it = classes.find(o.dom);
  std::vector<std::int64_t> cells = o.cells;
  if (cells.size() == 1 && cells[0] == -1) {
    cells.clear();
    if (!s.subset)
      for (std::int64_t c = 0; c < g.ncells(); ++c) cells.push_back(c);
    else cells = s.cells;
  }
  if (it == classes.end()) return;
  if (!ls) {
    double want = 0, got = 0, vol = 1;
    for (int i = 0; i < dim; ++i) vol *= g.len(i);
    int nsign = 0, ncut = 0;
    for (const auto c : cells) {
      const int fl = flags_of<dim>(*it->second, s, c, -1);
      if (fl < 0) return;
      want += fl & 1 ? 1.0 : fl & 2 ? 0.0 : g.sample(c, -1).neg;
      if (fl & 4) ++ncut;
    }
    for (std::size_t k = 0; k < std::size_t(h[1]); ++k) {
      const double m = measure<dim>(pts, conn, k * ppc, d, order);
      got += std::fabs(m);
      if (centre_jacobian<dim>(pts, conn, k * ppc, order) < -1e-9 * vol) ++nsign;
    }
    if (nsign) return bad("broken-mesh", o, std::to_string(nsign) + " cells are inverted");
    got /= vol;
    // Curved cells are approximated; full cells are not.
    const double tol = (order == 2 ? 1 : order == 3 ? 0.35 : 0.12) * ncut + 1e-6;
    if (!near(got, want, tol)) return bad("broken-mesh", o, "the mesh covers " + num(got) + " cells instead of " + num(want));
  } else {
    bool crossing = false;
    for (const auto c : cells) {
      const auto sm = g.sample(c, -1);
      if (sm.neg > 0.1 && sm.pos > 0.1) crossing = true;
    }
    // Cells of a level set face outwards.
    for (std::size_t k = 0; k < std::size_t(h[1]); ++k) {
      double n[3], at[3];
      const double len = centre_normal<dim>(pts, conn, k * ppc, order, n, at);
      const auto gr = g.f->grad(pt<dim>(at));
      double dp = 0, gn = 0;
      for (int c = 0; c < dim; ++c) { dp += n[c] * gr(c); gn += gr(c) * gr(c); }
      if (len > 1e-6 * scale && gn > 1e-12 && dp < -1e-3 * len * std::sqrt(gn)) return bad("broken-mesh", o, "cell " + std::to_string(k) + " of the level set faces inwards");
    }
    if (crossing && h[1] == 0) return bad("broken-mesh", o, "no cells although the boundary crosses the requested cells");
  }
  if (o.code == 'V') {
    if (b.files.size() != 3) return bad("wrong-file", o, "three files are expected");
    judge_vtu(o, b.files[0], pts, conn, dim, d, order, "interior");
    judge_vtu(o, b.files[1], pts, wires, dim, 1, order, "edges");
    const std::string base = vtk_base(o);
    // A reader looks for relative names in the index's own directory.
    std::set<std::string> refer;
    for (std::size_t i = 0; (i = b.files[2].find("file=\"", i)) != std::string::npos; ++i) {
      const std::string f = text_between(b.files[2], "file=\"", "\"", i);
      refer.insert(f[0] == '/' ? f : base.substr(0, base.rfind('/') + 1) + f);
    }
    for (const char *e : { ".vtu", "_wb.vtu" })
      if (!refer.count(base + e)) return bad("wrong-file", o, "a reader of the index " + base + ".vtmb does not find " + base + e);
    if (b.files[2].find("</VTKFile>") == std::string::npos) return bad("wrong-file", o, "the index does not end");
  }
}

// The same request with and without merging describes the same cells.
template<int dim> void judge_pairs()
{
  for (std::size_t i = 0; i < ops.size(); ++i)
    for (std::size_t j = 0; j < ops.size(); ++j) {
      const Op &x = ops[i], &y = ops[j];
      if (specs[std::size_t(x.dom)].dim != dim || x.code != y.code || (x.code != 'R' && x.code != 'L') || x.dom != y.dom || x.n != y.n || x.cells != y.cells || x.x == y.x || x.x == 0) continue;
      const Blob &a = refs[i], &b = refs[j];
      if (a.s.size() < 4 || b.s.size() < 4) continue;
      if (a.s[2].size() != b.s[2].size()) { bad("broken-mesh", x, "merging points changed the cells"); continue; }
      for (std::size_t k = 0; k < a.s[2].size(); ++k)
        for (int c = 0; c < dim; ++c)
          if (!near(a.s[1][std::size_t(a.s[2][k]) * dim + std::size_t(c)], b.s[1][std::size_t(b.s[2][k]) * dim + std::size_t(c)], 1e-7)) {
            bad("broken-mesh", x, "merging points moved a cell's point");
            return;
          }
      // The same edges, each once.
      const std::size_t n = std::size_t(x.n);
      const auto same = [&](std::size_t p, std::size_t q) {
        for (int rev = 0; rev < 2; ++rev) {
          bool eq = true;
          for (std::size_t k = 0; eq && k < n; ++k)
            for (int c = 0; eq && c < dim; ++c)
              eq = near(a.s[1][std::size_t(a.s[3][p + k]) * dim + std::size_t(c)], b.s[1][std::size_t(b.s[3][q + (rev ? n - 1 - k : k)]) * dim + std::size_t(c)], 1e-7);
          if (eq) return true;
        }
        return false;
      };
      if (a.s[3].size() % n || b.s[3].size() % n) continue;
      std::vector<bool> hit(a.s[3].size() / n);
      for (std::size_t q = 0; q < b.s[3].size(); q += n) {
        bool found = false;
        for (std::size_t p = 0; p < a.s[3].size(); p += n)
          if (same(p, q)) hit[p / n] = found = true;
        if (!found) { bad("broken-mesh", x, "merging points lost an edge"); return; }
      }
      for (const bool h : hit)
        if (!h) { bad("broken-mesh", x, "merging points made up an edge"); return; }
    }
}

// A domain built for some cells only says of them what the whole domain says.
template<int dim> void judge_subsets(const std::map<int, const Blob *> &classes)
{
  for (const auto &x : classes)
    for (const auto &y : classes) {
      const Spec &a = specs[std::size_t(x.first)], &b = specs[std::size_t(y.first)];
      if (a.dim != dim || b.dim != dim || !a.subset || b.subset || a.kind != b.kind) continue;
      if (std::memcmp(a.n, b.n, sizeof a.n) || std::memcmp(a.lo, b.lo, sizeof a.lo) || std::memcmp(a.hi, b.hi, sizeof a.hi) || std::memcmp(a.a, b.a, sizeof a.a)) continue;
      rt::probe("subset");
      for (const auto c : a.cells)
        for (int f = -1; f < 2 * dim; ++f)
          if (flags_of<dim>(*x.second, a, c, f) != flags_of<dim>(*y.second, b, c, f)) {
            rt::violation("queries-disagree", "cell " + std::to_string(c) + " is classified differently when only some cells are asked for");
            return;
          }
    }
}

void judge_all()
{
  std::map<int, const Blob *> classes;
  for (std::size_t k = 0; k < ops.size(); ++k)
    if ((ops[k].code == 'A' || ops[k].code == 'B') && refs[k].s.size() >= 11) classes[ops[k].dom] = &refs[k];
  for (std::size_t k = 0; k < ops.size(); ++k) {
    const Op &o = ops[k];
    const Blob &b = refs[k];
    if (b.s.empty()) continue;
    const bool two = specs[std::size_t(o.dom)].dim == 2;
    switch (o.code) {
    case 'A':
    case 'B': two ? judge_classes<2>(o, b) : judge_classes<3>(o, b); break;
    case 'C': two ? judge_query<2>(o, b, classes) : judge_query<3>(o, b, classes); break;
    case 'Q':
    case 'U':
    case 'I':
    case 'E': two ? judge_quad<2>(o, b, classes) : judge_quad<3>(o, b, classes); break;
    case 'G': two ? judge_rule<2>(o, b) : judge_rule<3>(o, b); break;
    case 'P': two ? judge_grid<2>(o, b) : judge_grid<3>(o, b); break;
    case 'R':
    case 'L':
    case 'V': two ? judge_mesh<2>(o, b, classes) : judge_mesh<3>(o, b, classes); break;
    default: break;
    }
  }
  judge_pairs<2>();
  judge_pairs<3>();
  judge_subsets<2>(classes);
  judge_subsets<3>(classes);
}
