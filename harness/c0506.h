// Shared by C05 (gradient of scalars) and C06 (gradient of vectors).
#pragma once
#include "gals.h"
namespace vf
{
// The documented stencils, evaluated independently; `mag` gets the sum of |terms|.
template <class F>
double stencil(const Spec& s, int scheme, int axis, int i, int j, int k, F f, double& mag)
{
  auto at = [&](int o) { return (long double)f(i + (axis == 0) * o, j + (axis == 1) * o, k + (axis == 2) * o); };
  long double v, m, h = ((long double)s.hi[axis] - s.lo[axis]) / s.n[axis];
  if (scheme == 2) {
    v = (at(1) - at(-1)) / (2 * h);
    m = (fabsl(at(1)) + fabsl(at(-1))) / (2 * h);
  } else {
    v = (2 * at(1) + 3 * at(0) - 6 * at(-1) + at(-2)) / (6 * h);
    m = (2 * fabsl(at(1)) + 3 * fabsl(at(0)) + 6 * fabsl(at(-1)) + fabsl(at(-2))) / (6 * h);
  }
  mag = (double)m;
  return (double)v;
}
enum Form { STATIC_CLASS, SCHEME_COMPUTE, SCHEME_CALL, DEFAULT_SCHEME };
template <int D, class A, class G>
void run_gradient(int scheme, Form form, const A& a, G& g)
{
  using S2 = GALS::CPU::SecondOrderCentral<double, Grid<D>>;
  using S3 = GALS::CPU::ThirdOrder<double, Grid<D>>;
  if (form == DEFAULT_SCHEME && scheme == 3)
    GALS::CPU::Gradient<double, Grid<D>>::compute(a, g);
  else if (form == SCHEME_COMPUTE)
    scheme == 2 ? S2().compute(a, g) : S3().compute(a, g);
  else if (form == SCHEME_CALL)
    scheme == 2 ? S2()(a, g) : S3()(a, g);
  else if (scheme == 2)
    GALS::CPU::Gradient<double, Grid<D>, S2>::compute(a, g);
  else
    GALS::CPU::Gradient<double, Grid<D>, S3>::compute(a, g);
}
// how the data of a case is made
enum Data { RANDOM, POLY, OUTLIERS, HUGE_RANGE, CONSTANT, SPARSE, LEVELS, N_DATA };
inline const char* data_name(int d)
{
  static const char* n[] = {"random", "polynomial", "outliers", "huge_range", "constant", "sparse", "levels"};
  return n[d];
}
inline double draw(Rng& r, int data, double constant)
{
  switch (data) {
    case OUTLIERS:
      return r.coin(0.05) ? r.uni(-1, 1) * 1e12 : r.uni(-1, 1);
    case HUGE_RANGE:
      return r.uni(-1, 1) * pow(10., r.uni(-30, 30));
    case CONSTANT:
      return constant;
    case SPARSE:  // mostly zero
      return r.coin(0.75) ? 0 : r.uni(-1, 1);
    case LEVELS:  // few distinct values, so neighbours are often equal
      return (double)r.irange(-1, 1);
    default:
      return r.uni(-1, 1);
  }
}
}  // namespace vf
