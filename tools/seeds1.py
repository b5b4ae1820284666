PRE = r'''
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <fstream>
#include <vector>
#include <thread>
#include "gals/cpu/gradient.h"
#include "gals/cpu/interpolate.h"
#include "gals/cpu/levelset.h"
#include "gals/cpu/levelset-velocity.h"
#include "gals/cpu/temporal.h"
#include "gals/analytical-fields/levelset.h"
#include "gals/analytical-fields/velocity.h"
#include "gals/input-parser.h"
using namespace GALS;
using namespace GALS::CPU;
typedef Grid<double, 1> G1; typedef Grid<double, 2> G2; typedef Grid<double, 3> G3;
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static bool near(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
'''
SL = "TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler"
SEEDS = []


def seed(id, property, edits, needs, breaks, cc=None, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, **dict(k, **({"cc": PRE + cc} if cc else {}))))


seed("base-node-truncates", "C03",
     [("src/cpu/grid.cc", "base_node_id[axis] = floor(((x[axis] - m_box_min[axis]) * m_one_over_dx[axis]) - 0.5);",
       "base_node_id[axis] = static_cast<int>(((x[axis] - m_box_min[axis]) * m_one_over_dx[axis]) - 0.5);")],
     "a position left of the first cell centre (in the half cell next to the lower boundary or in the ghost cells)",
     "the base node of such a position is the first centre instead of the ghost node to its left, so the interpolation extrapolates",
     r'''
int main() {
  G1 g(10, 1, 1); g.generate(0, 1, 0, 1, 0, 1);
  CHECK(g.baseNodeId(Vec3<double>(0.52, 0, 0))[0] == 4);
  CHECK(g.baseNodeId(Vec3<double>(0.02, 0, 0))[0] == -1);
  G2 h(4, 4, 1); h.generate(-1, 1, -1, 1, 0, 1);
  CHECK(h.baseNodeId(Vec3<double>(0.3, -0.9, 0))[1] == -1);
}
''')

seed("root-gradient-reused", "C14",
     [("src/cpu/temporal-schemes/semi-lagrangian/euler.cc",
       "  GALS::CPU::Array<T_GRID, GALS::CPU::Mat3<T>> x_root_grad(grid);\n",
       "  GALS::CPU::Array<T_GRID, GALS::CPU::Mat3<T>> x_root_grad(grid);\n  static thread_local std::vector<GALS::CPU::Mat3<T>> cached;\n"
       "  static thread_local T cached_dt = 0;\n  // The velocity gradient of a stationary flow needs to be combined only once.\n"
       "  const bool reuse = cached.size() == x_root_grad.size() && cached_dt == dt;\n"),
      ("src/cpu/temporal-schemes/semi-lagrangian/euler.cc",
       "      for (int k = 0; k < num_cells[2]; ++k) x_root_grad(i, j, k) = identity_mat - velocity_grad(i, j, k) * dt;\n",
       "      for (int k = 0; k < num_cells[2]; ++k)\n        x_root_grad(i, j, k) =\n            reuse ? cached[grid.index(i, j, k)] : identity_mat - velocity_grad(i, j, k) * dt;\n\n"
       "  if (!reuse) cached = x_root_grad.data(), cached_dt = dt;\n")],
     "two steps with the same time step on grids of the same size while the velocity gradient changed between them",
     "the second step transports the gradient of the level set with the velocity gradient of an earlier step or of another simulation",
     r'''
static double run(double a) {
  G2 g(6, 6, 1); g.setPadding(2); g.generate(0, 1, 0, 1, 0, 1);
  Levelset<G2, double> l(g); LevelsetVelocity<G2, double> v(g);
  for (int i = -2; i < 8; ++i) for (int j = -2; j < 8; ++j) {
    l.phiPrev()(i, j, 0) = g(i, j, 0)[0]; l.psiPrev()(i, j, 0) = Vec3<double>(1, 0, 0);
    v.velocityGradient()(i, j, 0)(0, 0) = a;
  }
  Temporal<double, G2, TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G2>>::compute(0.01, v, l);
  return l.psi()(3, 3, 0)[0];
}
int main() {
  CHECK(near(run(0.5), 1 - 0.005));
  CHECK(near(run(-0.25), 1 + 0.0025));
}
''')

seed("departure-skip-slow", "C12",
     [("src/cpu/temporal-schemes/semi-lagrangian/euler.cc",
       "      for (int k = 0; k < num_cells[2]; ++k) x_root(i, j, k) = grid(i, j, k) - velocity(i, j, k) * dt;\n",
       "      for (int k = 0; k < num_cells[2]; ++k) {\n        const GALS::CPU::Vec3<T> zero;\n"
       "        // Nodes at rest are their own departure points.\n"
       "        const GALS::CPU::Vec3<T> displacement = velocity(i, j, k) * dt;\n"
       "        x_root(i, j, k) = displacement == zero ? grid(i, j, k) : grid(i, j, k) - displacement;\n      }\n")],
     "a domain whose cells are so small (1e-10 and below) that a displacement of a good part of a cell passes for zero in Vec3's equality",
     "on small domains nothing moves: the node itself is taken for the departure point",
     r'''
int main() {
  const double h = 1e-11; G1 g(10, 1, 1); g.generate(0, 10 * h, 0, 1, 0, 1);
  Levelset<G1, double> l(g); LevelsetVelocity<G1, double> v(g);
  for (int i = -1; i < 11; ++i) { l.phiPrev()(i, 0, 0) = g(i, 0, 0)[0] / h; l.psiPrev()(i, 0, 0)[0] = 1 / h; v.velocity()(i, 0, 0)[0] = h; }
  Temporal<double, G1, TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G1>>::compute(0.5, v, l);
  CHECK(near(l.phi()(4, 0, 0), 4.0));
}
''')

seed("index-row-stride", "C02",
     [("src/cpu/grid.cc", "((k * m_mask[2] + m_pad) * (m_nx + 2 * m_pad) * (m_ny + 2 * m_pad) * m_mask[2]) +",
       "((k * m_mask[2] + m_pad) * (m_nx + 2 * m_pad) * (m_ny + 2) * m_mask[2]) +")],
     "a three-dimensional grid with more than one ghost layer",
     "cells of neighbouring z planes share storage",
     r'''
int main() {
  G3 g(3, 4, 5); g.setPadding(2); g.generate(0, 1, 0, 1, 0, 1);
  std::vector<int> seen(g.size());
  for (int i = -2; i < 5; ++i) for (int j = -2; j < 6; ++j) for (int k = -2; k < 7; ++k) {
    std::size_t q = g.index(i, j, k); CHECK(q < seen.size()); CHECK(!seen[q]); seen[q] = 1; }
}
''')

seed("limiter-tie", "C09",
     [("include/gals/cpu/interpolation/hermite.h", "else if ((D1 - D5) * (D2 - D5) <= (T)0) {", "else if ((D1 - D5) * (D2 - D5) < (T)0) {")],
     "gradient limiting switched on and exactly one end slope equal to the secant slope",
     "the limiter leaves alone an interpolant its criterion replaces by the straight line",
     r"""
int main() {
  auto c = INTERPOLATION::get_control_points<double>(0.0, 0.0, 1.0, 0.5, 1.0, true);
  c = INTERPOLATION::get_control_points<double>(0.0, 1.0, 1.0, 2.0, 1.0, true);
  CHECK(near(c.c_21, 1. / 3)); CHECK(near(c.c_12, 2. / 3));
}
""")

seed("central-isotropic", "C05",
     [("src/cpu/gradient/second-order-central.cc",
       "          typename T_GRID::value_type one_by_dx = static_cast<typename T_GRID::value_type>(1.) / dx[axis];\n\n          grad_alpha(i, j, k)[axis] =",
       "          typename T_GRID::value_type one_by_dx = static_cast<typename T_GRID::value_type>(1.) / dx.min();\n\n          grad_alpha(i, j, k)[axis] =")],
     "cells that are not cubes",
     "the central gradient divides by the smallest cell size along every axis",
     r'''
int main() {
  G2 g(8, 4, 1); g.generate(0, 1, 0, 1, 0, 10);
  Array<G2, double> a(g); Array<G2, Vec3<double>> d(g);
  for (int i = -1; i < 9; ++i) for (int j = -1; j < 5; ++j) a(i, j, 0) = 3 * g(i, j, 0)[0] - 2 * g(i, j, 0)[1];
  Gradient<double, G2, SecondOrderCentral<double, G2>>::compute(a, d);
  CHECK(near(d(3, 2, 0)[0], 3)); CHECK(near(d(3, 2, 0)[1], -2));
}
''')

seed("assign-interior-only", "C04",
     [("src/cpu/array.cc", "  m_data = array.data();\n",
       "  for (int i = 0; i < m_nx; ++i)\n    for (int j = 0; j < m_ny; ++j)\n      for (int k = 0; k < m_nz; ++k) (*this)(i, j, k) = array(i, j, k);\n")],
     "an assignment between fields whose ghost cells carry values, followed by a use of those ghost cells",
     "assignment leaves the ghost cells of the target as they were",
     r'''
int main() {
  G2 g(3, 3, 1); g.generate(0, 1, 0, 1, 0, 1);
  Array<G2, double> a(g), b(g);
  for (std::size_t q = 0; q < a.size(); ++q) a[q] = q + 1;
  b = a;
  for (std::size_t q = 0; q < a.size(); ++q) CHECK(b[q] == q + 1);
}
''')

seed("velocity-time-cache", "C16",
     [("src/cpu/analytical-fields/velocity.cc",
       "  const GALS::CPU::Vec3<int> num_cells = positions.numCells();\n  const auto& velocity_name = m_inputs.name;\n",
       "  const GALS::CPU::Vec3<int> num_cells = levelset_velocity.velocity().numCells();\n  const auto& velocity_name = m_inputs.name;\n\n"
       "  // The fields are already up to date when asked again for the same instant.\n"
       "  static thread_local const void* last_field = nullptr;\n  static thread_local T last_time = 0;\n"
       "  if (last_field == &levelset_velocity && last_time == time && time != static_cast<T>(0)) return;\n"
       "  last_field = &levelset_velocity, last_time = time;\n")],
     "a second computation for the same instant and the same target: other centre, other positions, or a target overwritten or rebuilt in the meantime",
     "the velocity is left as it was although it must describe the rotation configured",
     r'''
int main() {
  G2 g(4, 4, 1); g.generate(0, 1, 0, 1, 0, 1);
  Array<G2, Vec3<double>> p(g);
  for (int i = -1; i < 5; ++i) for (int j = -1; j < 5; ++j) p(i, j, 0) = g(i, j, 0);
  LevelsetVelocity<G2, double> v(g);
  INPUT_FIELDS::Velocity in; in.name = "CIRCULAR"; in.gradient_scheme = "ANALYTICAL"; in.center = {0, 0, 0};
  ANALYTICAL_FIELDS::Velocity<G2, double> a(g, in);
  INPUT_FIELDS::Velocity in2 = in; in2.center = {1, 2, 0};
  ANALYTICAL_FIELDS::Velocity<G2, double> b(g, in2);
  a.compute(p, 0.5, v);
  CHECK(near(v.velocity()(1, 2, 0)[1], M_PI / 3.15 * (g(1, 2, 0)[0])));
  b.compute(p, 0.5, v);
  CHECK(near(v.velocity()(1, 2, 0)[1], M_PI / 3.15 * (g(1, 2, 0)[0] - 1)));
}
''')

seed("linear-extent", "C11",
     [("src/cpu/interpolation/linear-1d.cc", "  for (int i = 0; i < x_interp.grid().numCells()[0]; ++i)\n", "  for (int i = 0; i < num_cells[0] && i < x_interp.grid().numCells()[0]; ++i)\n")],
     "more query points than cells in the interpolated field",
     "query points beyond the cell count of the source grid are never interpolated",
     r'''
int main() {
  G1 g(4, 1, 1), f(11, 1, 1); g.generate(0, 1, 0, 1, 0, 1); f.generate(0.2, 0.8, 0, 1, 0, 1);
  Array<G1, double> a(g), r(f); Array<G1, Vec3<double>> x(f);
  for (int i = -1; i < 5; ++i) a(i, 0, 0) = 1 + g(i, 0, 0)[0];
  for (int i = 0; i < 11; ++i) x(i, 0, 0) = f(i, 0, 0);
  Interpolate<double, G1, INTERPOLATION::Linear<double, G1>>::compute(x, a, r);
  for (int i = 0; i < 11; ++i) CHECK(near(r(i, 0, 0), 1 + f(i, 0, 0)[0]));
}
''')

seed("hermite3d-twist", "C07",
     [("src/cpu/interpolation/hermite-3d.cc",
       "c_12_yzx + (hx_by_three * hy_by_three * c_12_xyz_xy) - (hy_by_three * c_12_xyz_y) - (hz_by_three * c_12_yzx_z),",
       "c_12_yzx + (hx_by_three * hy_by_three * c_21_xyz_xy) - (hy_by_three * c_12_xyz_y) - (hz_by_three * c_12_yzx_z),")],
     "a three-dimensional field whose second mixed derivative d2/dxdy varies along z",
     "one inner control point of the 3D patch is wrong, so cubics with a triple mixed derivative are not reproduced",
     r'''
int main() {
  G3 g(4, 4, 4); g.generate(0, 1, 0, 1, 0, 1);
  Levelset<G3, double> l(g);
  for (int i = -1; i < 5; ++i) for (int j = -1; j < 5; ++j) for (int k = -1; k < 5; ++k) {
    double x = g(i, j, k)[0], y = g(i, j, k)[1], z = g(i, j, k)[2];
    l.phiPrev()(i, j, k) = x * y * z * z; l.psiPrev()(i, j, k) = Vec3<double>(y * z * z, x * z * z, 2 * x * y * z);
    auto& m = l.phiMixedDerivativesPrev()(i, j, k); m[0] = z * z; m[1] = 2 * x * z; m[2] = 2 * y * z; m[3] = 2 * z;
  }
  Vec3<double> q(0.55, 0.6, 0.57);
  auto r = INTERPOLATION::Hermite<double, G3>().interpolate(g, q, l);
  CHECK(near(r.phi_interpolated, 0.55 * 0.6 * 0.57 * 0.57, 1e-10));
}
''')

seed("euler-current-gradient", "C13",
     [("src/cpu/temporal-schemes/euler.cc", "  const auto &psi_prev = levelset.psiPrev();\n", "  const auto &psi_prev = levelset.psi();\n")],
     "a level set whose current and previous gradients differ",
     "the explicit step uses the gradient being computed instead of the one of the previous step",
     r'''
int main() {
  G1 g(4, 1, 1); g.generate(0, 1, 0, 1, 0, 1);
  Levelset<G1, double> l(g); LevelsetVelocity<G1, double> v(g);
  for (int i = -1; i < 5; ++i) { l.phiPrev()(i, 0, 0) = 1; l.psiPrev()(i, 0, 0)[0] = 2; l.psi()(i, 0, 0)[0] = -7; v.velocity()(i, 0, 0)[0] = 3; }
  Temporal<double, G1, TEMPORAL_SCHEMES::Euler<double, G1>>::compute(0.1, v, l);
  CHECK(near(l.phi()(2, 0, 0), 1 - 0.6));
}
''')

seed("hermite2d-static-basis", "C21",
     [("src/cpu/interpolation/hermite-2d.cc", "  T control_points_all[] = {control_points_left.c_30,\n", "  static T control_points_all[16];\n  const T control_points_new[] = {control_points_left.c_30,\n"),
      ("src/cpu/interpolation/hermite-2d.cc", "                            control_points_right.c_03};\n",
       "                            control_points_right.c_03};\n  for (int i = 0; i < 16; ++i) control_points_all[i] = control_points_new[i];\n")],
     "two threads interpolating different level sets at the same time",
     "the control points are shared between threads: a data race, and now and then a value from the other simulation",
     r'''
int main() {
  auto work = [](double s, int* bad) {
    G2 g(4, 4, 1); g.generate(0, 1, 0, 1, 0, 1);
    Levelset<G2, double> l(g);
    for (std::size_t q = 0; q < l.phiPrev().size(); ++q) l.phiPrev()[q] = s;
    for (int n = 0; n < 400000; ++n) {
      auto r = INTERPOLATION::Hermite<double, G2>().interpolate(g, Vec3<double>(0.5, 0.5, 0), l);
      if (std::fabs(r.phi_interpolated - s) > 1e-9) ++*bad;
    }
  };
  int b[4] = {0, 0, 0, 0};
  std::vector<std::thread> t;
  for (int i = 0; i < 4; ++i) t.emplace_back(work, 1.0 + i, &b[i]);
  for (auto& x : t) x.join();
  CHECK(b[0] + b[1] + b[2] + b[3] == 0);
}
''')

FSCC = r'''
#include "gals/utilities/file-utils.h"
'''
seed("write-appends", "C23",
     [("src/cpu/file-utils.cc", "  std::ofstream ofs(file_name);\n", "  std::ofstream ofs(file_name, std::ios::out | std::ios::app);\n")],
     "writing a field to a file that already exists",
     "the file holds the old snapshot followed by the new one",
     FSCC + r'''
#include <sstream>
int main() {
  G2 g(3, 2, 1); g.generate(0, 1, 0, 1, 0, 1); Array<G2, double> a(g);
  UTILITIES::FileUtils f;
  for (int n = 0; n < 2; ++n) {
    f.write("field", a);
    std::ifstream in("field"); std::string s; int lines = 0; while (std::getline(in, s)) ++lines;
    CHECK(lines == 6);
  }
}
''', more="/repo/src/cpu/file-utils.cc", files={"filesystem/path.h": open("/verif/stub/filesystem/path.h").read()})

seed("parse-float-radius", "C17",
     [("src/cpu/input-parser/levelset.cc", 'field["radius"].as<double>();', 'field["radius"].as<float>();')],
     "a radius that single precision cannot hold",
     "the radius used differs from the one in the file",
     r'''
int main() {
  std::ofstream("in") << "levelset:\n  name: CIRCLE\n  center: [0, 0, 0]\n  radius: 0.123456789012345\n  gradient:\n    scheme: X\n";
  INPUT_FIELDS::InputFields f; INPUT_PARSER::InputParser p; p.parse("in", &f);
  CHECK(f.m_levelset->radius == 0.123456789012345);
}
''')

seed("time-end-optional", "C18",
     [("src/cpu/input-parser/time.cc", '  input_fields.m_time->dt = field["dt"].as<double>();',
       '  input_fields.m_time->dt = field["dt"].as<double>(input_fields.m_time->end - input_fields.m_time->start);')],
     "a time section whose dt is missing or is not a number",
     "the malformed file is accepted and the whole simulation becomes one step",
     r"""
int main() {
  std::ofstream("in") << "time:\n  start: 0\n  end: 1\n  dt: fast\n  constant_dt: YES\n";
  INPUT_FIELDS::InputFields f; INPUT_PARSER::InputParser p;
  bool refused = false;
  try { p.parse("in", &f); } catch (const std::exception&) { refused = true; }
  CHECK(refused);
}
""")

APP = r"""cp /repo/applications/advection/main.cc "$t/main.cc"
g++ -std=c++14 -O1 -w -pthread -I /repo/include -I "$here" "$t/main.cc" "$here/probe.cc" $(find /repo/src/cpu -name '*.cc') -o "$t/app" -lyaml-cpp || exit 3
cd "$t"
cat > inputs <<'END'
general:
  output_directory: "out"
grid:
  box: {x_min: -1, x_max: 1, y_min: -1, y_max: 1, z_min: -1, z_max: 1}
  cells: [6, 5, 1]
time: {start: 0, end: 1.0, dt: 0.1, constant_dt: YES}
velocity: {name: CIRCULAR, vector: [1, 0, 0], center: [0, 0, 0], gradient: {scheme: ANALYTICAL}}
levelset: {name: CIRCLE, center: [0, 0.5, 0], radius: 0.2, gradient: {scheme: X}}
END
timeout 60 ./app inputs > log || exit 4
"""
