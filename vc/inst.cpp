// Explicit instantiations, so that clang's AST contains every member of the class templates and
// header-only classes of libnurbs. No code of its own.
#include <libnurbs/Core/Typedefs.hpp>
#include <libnurbs/Core/Grid.hpp>
#include <libnurbs/Core/BoundingBox.hpp>
#include <libnurbs/Core/KnotVector.hpp>
#include <libnurbs/Algorithm/MathUtils.hpp>
template class libnurbs::Grid<libnurbs::Vec4>;
template class libnurbs::Grid<libnurbs::Vec3>;
template bool libnurbs::Approx<libnurbs::Vec3>(const Eigen::MatrixBase<libnurbs::Vec3>&, const Eigen::MatrixBase<libnurbs::Vec3>&, double);
