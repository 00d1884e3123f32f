// Link stand-in: reparametrization of Bezier domains needs algoim's internals.
#include <qugar/impl_reparam_bezier.hpp>
#include <stdexcept>

namespace qugar::impl {
template<int dim, bool S>
std::shared_ptr<ImplReparamMesh<S ? dim - 1 : dim, dim>> reparam_Bezier(const BezierTP<dim, 1> &, const BoundBox<dim> &, int)
{
  throw std::logic_error("Bezier reparametrization is not simulated");
}
template<int dim, bool S>
void reparam_Bezier(const BezierTP<dim, 1> &, const BoundBox<dim> &, ImplReparamMesh<S ? dim - 1 : dim, dim> &)
{
  throw std::logic_error("Bezier reparametrization is not simulated");
}
#define INST(d, S, r)                                                                                                \
  template std::shared_ptr<ImplReparamMesh<r, d>> reparam_Bezier<d, S>(const BezierTP<d, 1> &, const BoundBox<d> &, int); \
  template void reparam_Bezier<d, S>(const BezierTP<d, 1> &, const BoundBox<d> &, ImplReparamMesh<r, d> &);
INST(2, false, 2)
INST(2, true, 1)
INST(3, false, 3)
INST(3, true, 2)
}// namespace qugar::impl
