exec(open("/verif/tools/seeds1.py").read().split('seed("base-node-truncates"')[0])

seed("jacobian-row-spacing", "C06",
     [("src/cpu/gradient/second-order-central.cc", "static_cast<typename T_GRID::value_type>(1.) / dx[cmpt];\n", "static_cast<typename T_GRID::value_type>(1.) / dx[axis];\n")],
     "a grid whose spacing differs between the axes",
     "an entry of the Jacobian is scaled with the spacing of the axis of its row instead of its column",
     r'''
int main() {
  G2 g(5, 4, 1); g.generate(0, 5, 0, 8, 0, 1); Array<G2, Vec3<double>> v(g); Array<G2, Mat3<double>> m(g);
  for (int i = -1; i < 6; ++i) for (int j = -1; j < 5; ++j) v(i, j, 0) = Vec3<double>(3 * g(i, j, 0)[1], 5 * g(i, j, 0)[0], 0);
  Gradient<double, G2, SecondOrderCentral<double, G2>>::compute(v, m);
  CHECK(near(m(2, 2, 0)(0, 1), 3)); CHECK(near(m(2, 2, 0)(1, 0), 5)); CHECK(near(m(2, 2, 0)(0, 0), 0));
}
''')

seed("flat-edge-straightened", "C08",
     [("include/gals/cpu/interpolation/hermite.h", "  control_points.c_03 = phi_1;\n",
       "  control_points.c_03 = phi_1;\n\n  // No variation along this edge.\n"
       "  if (fabs(phi_1 - phi_0) < (T)1e-10 && phi_x_0 * phi_x_1 < (T)0)\n    control_points.c_21 = phi_0, control_points.c_12 = phi_1;\n")],
     "two neighbouring nodes of (almost) equal value with gradients of opposite sign: a symmetric peak between them, or small-scale data",
     "the interpolant ignores the gradients at both nodes: it does not take them there, and is not linear in the data",
     r'''
int main() {
  G1 g(6, 1, 1); g.generate(0, 6, 0, 1, 0, 1); Levelset<G1, double> l(g);
  for (int i = -1; i < 7; ++i) l.phiPrev()(i, 0, 0) = i * (5 - i), l.psiPrev()(i, 0, 0) = Vec3<double>(5 - 2 * i, 0, 0);
  INTERPOLATION::Hermite<double, G1> h;
  for (int i = 0; i < 5; ++i) {
    CHECK(near(h.interpolate(g, Vec3<double>(i + 0.5 + 1e-9, 0, 0), l).psi_interpolated[0], 5 - 2 * i, 1e-6));
    CHECK(near(h.interpolate(g, Vec3<double>(i + 1, 0, 0), l).phi_interpolated, (i + 0.5) * (4.5 - i)));
  }
}
''')

seed("repeated-query-point", "C10",
     [("src/cpu/interpolation/hermite-2d.cc", "        const auto &hermite_fields = this->interpolate(grid, x_interp(i, j, k), levelset);\n",
       "        // The neighbour already asked for this position.\n"
       "        if (j > 0 && x_interp(i, j, k) == x_interp(i, j - 1, k)) {\n"
       "          levelset.phiInterpPrev()(i, j, k) = levelset.phiInterpPrev()(i, j - 1, k);\n"
       "          levelset.psiInterpPrev()(i, j, k) = levelset.psiInterpPrev()(i, j - 1, k);\n          continue;\n        }\n\n"
       "        const auto &hermite_fields = this->interpolate(grid, x_interp(i, j, k), levelset);\n")],
     "two query positions in a row that differ by less than 1e-10 in each coordinate (a small domain, or points gathered in one place)",
     "the second position is given the value and gradient at the first",
     r'''
int main() {
  G2 g(6, 6, 1); g.generate(0, 1.2e-10, 0, 1.2e-10, 0, 1); Levelset<G2, double> l(g); Array<G2, Vec3<double>> q(g);
  for (int i = -1; i < 7; ++i) for (int j = -1; j < 7; ++j) { l.phiPrev()(i, j, 0) = i + 10 * j; q(i, j, 0) = g(i, j, 0); }
  Interpolate<double, G2, INTERPOLATION::Hermite<double, G2>>::compute(q, l);
  CHECK(near(l.phiInterpPrev()(2, 1, 0), 12, 1e-6)); CHECK(near(l.phiInterpPrev()(2, 4, 0), 42, 1e-6));
}
''')

seed("euler-cell-at-rest", "C13",
     [("src/cpu/temporal-schemes/euler.cc", "      for (int k = 0; k < num_cells[2]; ++k) {\n",
       "      for (int k = 0; k < num_cells[2]; ++k)  // Nothing is carried into a cell at rest.\n"
       "        if (!(velocity(i, j, k) == GALS::CPU::Vec3<T>(0, 0, 0))) {\n")],
     "a cell where the velocity vanishes (or is below 1e-10) and whose new value does not already equal its previous one",
     "the new value at such a cell is whatever it was before the step",
     r'''
int main() {
  G2 g(4, 4, 1); g.generate(0, 4, 0, 4, 0, 1); Levelset<G2, double> l(g); LevelsetVelocity<G2, double> v(g);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
    l.phi()(i, j, 0) = 99; l.phiPrev()(i, j, 0) = i + j; l.psiPrev()(i, j, 0) = Vec3<double>(1, 1, 0); v.velocity()(i, j, 0) = Vec3<double>(i, 0, 0);
  }
  Temporal<double, G2, TEMPORAL_SCHEMES::Euler<double, G2>>::compute(0.1, v, l);
  CHECK(near(l.phi()(2, 1, 0), 3 - 0.2)); CHECK(near(l.phi()(0, 3, 0), 3));
}
''')

seed("levelset-centre-remembered", "C15",
     [("src/cpu/analytical-fields/levelset.cc", "      GALS::CPU::Vec3<T> distance_vec;\n",
       "      GALS::CPU::Vec3<T> distance_vec;\n\n      // Centre of the shape, looked up once per set of inputs.\n"
       "      static thread_local const void* inputs_seen = nullptr;\n      static thread_local GALS::CPU::Vec3<T> center;\n"
       "      if (inputs_seen != &m_inputs) inputs_seen = &m_inputs, center = m_inputs.center;\n"),
      ("src/cpu/analytical-fields/levelset.cc", "            distance_vec = positions(i, j, k) - m_inputs.center;\n", "            distance_vec = positions(i, j, k) - center;\n")],
     "the inputs are changed between two computations, or a later set of inputs lies at the address of an earlier one",
     "the level set is the distance to a circle around the centre configured before",
     r'''
int main() {
  G2 g(4, 4, 1); g.generate(0, 4, 0, 4, 0, 1); Array<G2, Vec3<double>> x(g);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) x(i, j, 0) = g(i, j, 0);
  INPUT_FIELDS::Levelset in; in.name = "CIRCLE"; in.radius = 1;
  for (int n = 0; n < 3; ++n) {
    in.center = Vec3<double>(n, 0.5, 0); Levelset<G2, double> l(g); ANALYTICAL_FIELDS::Levelset<G2, double> a(g, in);
    a.compute(x, l);
    CHECK(near(l.phi()(3, 0, 0), 3.5 - n - 1));
  }
}
''')

seed("zero-step-leaks", "C20",
     [("src/cpu/temporal-schemes/semi-lagrangian/euler.cc", "  GALS::CPU::Array<T_GRID, GALS::CPU::Vec3<T>> x_root(grid);\n",
       "  auto *root = new GALS::CPU::Array<T_GRID, GALS::CPU::Vec3<T>>(grid);\n  auto &x_root = *root;\n"),
      ("src/cpu/temporal-schemes/semi-lagrangian/euler.cc", "  // Compute x_root_grad.\n",
       "  // A step of no length leaves the field where it is.\n  if (dt == static_cast<T>(0)) {\n"
       "    for (int i = 0; i < num_cells[0]; ++i)\n      for (int j = 0; j < num_cells[1]; ++j)\n        for (int k = 0; k < num_cells[2]; ++k) {\n"
       "          phi(i, j, k) = levelset.phiInterpPrev()(i, j, k);\n          psi(i, j, k) = levelset.psiInterpPrev()(i, j, k);\n        }\n    return;\n  }\n"
       "  delete root;\n\n  // Compute x_root_grad.\n")],
     "a step with a time step of zero",
     "the array of departure points of such a step is never freed",
     r'''
int main() {
  G2 g(5, 5, 1); g.generate(0, 5, 0, 5, 0, 1); Levelset<G2, double> l(g); LevelsetVelocity<G2, double> v(g);
  for (double dt : {0.1, 0.0, 0.2, 0.0}) Temporal<double, G2, TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G2>>::compute(dt, v, l);
  CHECK(l.phi()(2, 2, 0) == 0);
}
''', lib=1, flags="-fsanitize=address")

seed("sum-order-by-alignment", "C22",
     [("src/cpu/interpolation/hermite-2d.cc",
       "      hermite_fields.phi_interpolated += bx[i] * by[j] * control_points_all[k];\n      ++k;\n    }\n",
       "      (aligned && (k & 1) ? odd : even) += bx[i] * by[j] * control_points_all[k];\n      ++k;\n    }\n  hermite_fields.phi_interpolated = even + odd;\n"),
      ("src/cpu/interpolation/hermite-2d.cc", "  for (int i = 0, k = 0; i < 4; ++i)\n    for (int j = 0; j < 4; ++j) {\n      hermite_fields.phi_interpolated +=",
       "  // Two accumulators where the control points start on a full vector register.\n"
       "  const bool aligned = reinterpret_cast<std::size_t>(control_points_all) % 64 == 0;\n  T even = 0, odd = 0;\n"
       "  for (int i = 0, k = 0; i < 4; ++i)\n    for (int j = 0; j < 4; ++j) {\n      hermite_fields.phi_interpolated +=")][::-1],
     "the same interpolation made from another depth of the stack, in another process or after other work",
     "the last digits of the result depend on where the stack happens to be",
     r'''
static double at(const G2& g, const Levelset<G2, double>& l, const Vec3<double>& q, int shift) {
  volatile char* p = static_cast<volatile char*>(__builtin_alloca(16 * shift + 16)); p[0] = 1;
  INTERPOLATION::Hermite<double, G2> h; return h.interpolate(g, q, l).phi_interpolated;
}
int main() {
  G2 g(5, 5, 1); g.generate(0, 1, 0, 1, 0, 1); Levelset<G2, double> l(g);
  for (int i = -1; i < 6; ++i) for (int j = -1; j < 6; ++j) {
    l.phiPrev()(i, j, 0) = std::sin(1.7 * i + 0.9 * j * j); l.psiPrev()(i, j, 0) = Vec3<double>(std::cos(i * j), std::sin(i - j), 0); l.phiMixedDerivativesPrev()(i, j, 0)[0] = std::cos(i + 2 * j);
  }
  for (int n = 0; n < 50; ++n) {
    const Vec3<double> q(0.11 + 0.0157 * n, 0.2 + 0.0113 * n, 0); const double a = at(g, l, q, 0);
    for (int s = 1; s < 12; ++s) CHECK(at(g, l, q, s) == a);
  }
}
''', lib=1)

APP3 = r"""g++ -std=c++14 -O1 -w -pthread -I /repo/include -I "$here" /repo/applications/advection/main.cc $(find /repo/src/cpu -name '*.cc') -o "$t/app" -lyaml-cpp || exit 3
cd "$t"
for end in 0.5 0.77 1.3; do
cat > inputs <<END
general:
  output_directory: "out"
grid:
  box: {x_min: -1, x_max: 1, y_min: -1, y_max: 1, z_min: -1, z_max: 1}
  cells: [8, 8, 1]
time: {start: 0, end: $end, dt: 0.1, constant_dt: NO}
velocity: {name: CIRCULAR, vector: [1, 0, 0], center: [0, 0, 0], gradient: {scheme: ANALYTICAL}}
levelset: {name: CIRCLE, center: [0, 0.5, 0], radius: 0.2, gradient: {scheme: X}}
END
rm -rf "$t/out"
timeout 30 ./app inputs > log || exit 4
[ "$(wc -l < out/velocity)" = 64 ] || exit 5
done
exit 0
"""
seed("automatic-step-misses-end", "C25",
     [("applications/advection/main.cc", "    if (GALS::is_equal(sim_time, t_end) || sim_time > t_end) run_sim = false;\n",
       "    if (GALS::is_equal(sim_time, t_end) || (is_dt_fixed && sim_time > t_end)) run_sim = false;\n")],
     "an automatic time step that does not divide the time to simulate",
     "the application steps over the end time and never ends",
     sh=APP3, files={"filesystem/path.h": open("/verif/stub/filesystem/path.h").read()})
