// Shared by C12, C13, C14: running time steps and independent models of them.
#pragma once
#include "gals.h"
namespace vf
{
template <int D>
using SL = GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, Grid<D>>;
template <int D>
using EX = GALS::TEMPORAL_SCHEMES::Euler<double, Grid<D>>;

template <int D>
int n_mixed()
{
  return D == 1 ? 0 : D == 2 ? 1 : 4;
}
// fill the fields a step must replace or leave alone with recognisable values
template <int D>
void junk_fields(Rng& r, const Spec& s, Levelset<D>& ls, bool numbers = false)
{
  const double bad = r.coin() ? NAN : INFINITY;
  const bool any = !numbers && r.coin(0.15);  // what is replaced may hold anything, values that are no numbers included
  s.all([&](int i, int j, int k) {
    ls.phi()(i, j, k) = r.uni(-1, 1);
    ls.psi()(i, j, k) = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
    ls.phiInterpPrev()(i, j, k) = r.uni(-1, 1);
    ls.psiInterpPrev()(i, j, k) = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
    for (int q = 0; q < n_mixed<D>(); ++q) ls.phiMixedDerivatives()(i, j, k)[q] = r.uni(-1, 1);
    if (any && r.coin(0.3)) {
      ls.phi()(i, j, k) = bad, ls.phiInterpPrev()(i, j, k) = bad;
      for (int a = 0; a < D; ++a) ls.psi()(i, j, k)[a] = bad, ls.psiInterpPrev()(i, j, k)[a] = bad;
    }
  });
}
template <int D>
void semi_lagrangian(int form, double dt, const LevelsetVelocity<D>& v, Levelset<D>& ls)
{
  if (form == 0)
    GALS::CPU::Temporal<double, Grid<D>, SL<D>>::compute(dt, v, ls);
  else if (form == 1)
    SL<D>().compute(dt, v, ls);
  else
    SL<D>()(dt, v, ls);
}
template <int D>
void explicit_euler(int form, double dt, const LevelsetVelocity<D>& v, Levelset<D>& ls)
{
  if (form == 0)
    GALS::CPU::Temporal<double, Grid<D>, EX<D>>::compute(dt, v, ls);
  else if (form == 1)
    EX<D>().compute(dt, v, ls);
  else if (form == 2)
    EX<D>()(dt, v, ls);
  else
    GALS::CPU::Temporal<double, Grid<D>>::compute(dt, v, ls);  // documented default scheme
}
}  // namespace vf
