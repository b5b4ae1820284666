exec(open("/verif/tools/seeds1.py").read().split('seed("base-node-truncates"')[0])

seed("regenerate-close-box", "C01",
     [("src/cpu/grid.cc", "  if (m_grid.size()) m_grid.clear(), m_grid.shrink_to_fit();\n",
       "  // Nothing to do if the same box is asked for again.\n"
       "  const std::size_t stored = (m_nz + 2 * m_pad * m_mask[2]) * (m_ny + 2 * m_pad * m_mask[1]) * (m_nx + 2 * m_pad * m_mask[0]);\n"
       "  if (m_grid.size() == stored && m_box_min == Vec3<T>(x_min, y_min, z_min) && m_box_max == Vec3<T>(x_max, y_max, z_max)) return;\n\n"
       "  m_grid.clear(), m_grid.shrink_to_fit();\n")],
     "a grid generated a second time with a box that differs from the first by less than 1e-10 (a small domain)",
     "the second box is ignored: nodes and spacing are still those of the first",
     r'''
int main() {
  G1 g(10, 1, 1); g.generate(0, 4e-11, 0, 1, 0, 1); g.generate(0, 2e-11, 0, 1, 0, 1);
  CHECK(std::fabs(g.dX()[0] - 2e-12) < 1e-16); CHECK(std::fabs(g(9, 0, 0)[0] - 1.9e-11) < 1e-15);
}
''')

seed("node-id-clamped", "C02",
     [("src/cpu/grid.cc", "  return this->index(node_id[0], node_id[1], node_id[2]);\n",
       "  // Nodes beyond the ghost layer share its last entry.\n"
       "  return this->index(node_id[0], node_id[1], node_id[2] > m_nz ? m_nz : node_id[2]);\n")],
     "a three-dimensional grid with two or more ghost layers, its upper z ghosts addressed by a node id",
     "the second upper ghost layer in z is read from and written to the first one",
     r'''
int main() {
  G3 g(3, 4, 5); g.setPadding(2); g.generate(0, 1, 0, 1, 0, 1);
  CHECK(g.index(Vec3<int>(1, 1, 6)) == g.index(1, 1, 6)); CHECK(g.index(Vec3<int>(1, 1, 6)) != g.index(Vec3<int>(1, 1, 5)));
}
''')

seed("vec3-assign-equal", "C04",
     [("src/cpu/vec3.cc", "  for (int i = 0; i < SIZE; ++i) m_data[i] = vec[i];\n",
       "  if (*this == vec) return;\n\n  for (int i = 0; i < SIZE; ++i) m_data[i] = vec[i];\n")],
     "overwriting a stored vector by one that differs by less than 1e-10 in every component",
     "the element keeps its old value",
     r'''
int main() {
  G2 g(3, 3, 1); g.generate(0, 1, 0, 1, 0, 1); Array<G2, Vec3<double>> a(g);
  a(1, 1, 0) = Vec3<double>(1e-12, 0, 0); CHECK(a(1, 1, 0)[0] == 1e-12);
  a(1, 2, 0) = Vec3<double>(1, 2, 3); a(1, 2, 0) = Vec3<double>(1, 2, 3 + 5e-11); CHECK(a(1, 2, 0)[2] == 3 + 5e-11);
}
''')

seed("limiting-default-3d", "C09",
     [("include/gals/cpu/interpolation/hermite.h",
       "const CPU::Levelset<GALS::CPU::Grid<T, 3>, T> &levelset, const bool use_gradient_limiting = false);",
       "const CPU::Levelset<GALS::CPU::Grid<T, 3>, T> &levelset, const bool use_gradient_limiting = true);")],
     "a three-dimensional interpolation that does not mention limiting, through data the limiter would change",
     "three-dimensional fields are limited although nobody asked for it",
     r'''
int main() {
  G3 g(4, 4, 4); g.generate(0, 4, 0, 4, 0, 4); Levelset<G3, double> l(g);
  for (int i = -1; i < 5; ++i) for (int j = -1; j < 5; ++j) for (int k = -1; k < 5; ++k) {
    l.phiPrev()(i, j, k) = i; l.psiPrev()(i, j, k) = Vec3<double>(i % 2 ? 2 : 1, 0, 0);
  }
  Vec3<double> q(1.75, 1.5, 1.5);
  INTERPOLATION::Hermite<double, G3> h;
  CHECK(near(h.interpolate(g, q, l).phi_interpolated, h.interpolate(g, q, l, false).phi_interpolated));
}
''')

seed("mat3-self-assign", "C19",
     [("src/cpu/mat3.cc", "  for (int i = 0; i < SIZE; ++i) m_data[i] = mat[i];\n",
       "  for (int i = 0; i < SIZE; ++i) m_data[i] = static_cast<T>(0);\n  for (int i = 0; i < SIZE; ++i) m_data[i] += mat[i];\n")],
     "assigning a matrix to itself, directly or through two references",
     "the matrix becomes zero",
     r'''
int main() {
  Mat3<double> m; for (int i = 0; i < 9; ++i) m[i] = i + 1;
  const Mat3<double>& r = m; m = r;
  CHECK(m[4] == 5);
}
''')

FS = dict(more="/repo/src/cpu/file-utils.cc", files={"filesystem/path.h": open("/verif/stub/filesystem/path.h").read()})
seed("exists-remembered", "C24",
     [("src/cpu/file-utils.cc", "  fs::path file_path(file_name);\n\n  return file_path.exists();\n",
       "  // A file that has been seen once need not be looked up again.\n  static thread_local std::string last_seen;\n"
       "  if (!file_name.empty() && file_name == last_seen) return true;\n\n"
       "  fs::path file_path(file_name);\n  if (!file_path.exists()) return false;\n  last_seen = file_name;\n\n  return true;\n")],
     "a file that is found, disappears, and is asked for again with no other file found in between",
     "the file is reported to exist although it is gone",
     r'''
#include "gals/utilities/file-utils.h"
int main() {
  UTILITIES::FileUtils f; std::ofstream("x") << "1";
  CHECK(f.fileExists("x")); std::remove("x"); CHECK(!f.fileExists("x"));
}
''', **FS)

CFG = r'''set_() { # file key value
  sed -i -E "s/^(\s*(double|unsigned int|char)\s+$2(\[\])?\s*=\s*)[^;]*;/\1$3;/" "$1"
}
cp -r /repo/src/reference "$t/ref"
'''
STUBS = {"ref/" + n: open("/verif/stub/ref/" + n).read() for n in ("mpi.h", "cuda.h", "cuda_runtime.h", "cuda_runtime_api.h", "device_launch_parameters.h")}
CMP = r'''
import sys
bad = 0
for f in ("phi", "psix", "psiy", "psixy"):
    a, b = (open("%s/%s.txt" % (d, f)).read().replace("\n", ",").split(",") for d in sys.argv[1:3])
    a, b = [x for x in a if x.strip()], [x for x in b if x.strip()]
    if len(a) != len(b) or any(abs(float(x) - float(y)) > 1e-7 * (1 + abs(float(y))) for x, y in zip(a, b)):
        print(f, "differs", len(a), len(b)); bad = 1
sys.exit(bad)
'''
PAIR = r'''
import os, socket, subprocess, sys
a, b = socket.socketpair()
ps = []
for k, s in enumerate((a, b)):
    e = dict(os.environ, VF_MPI_RANK=str(k), VF_MPI_SIZE="2", VF_MPI_FD=str(s.fileno()))
    ps.append(subprocess.Popen(sys.argv[1:], env=e, pass_fds=[s.fileno()], stdout=subprocess.DEVNULL))
a.close(), b.close()
rc = [p.wait(100) for p in ps]
sys.exit(1 if any(rc) else 0)
'''
seed("shared-gradient-scratch", "C26",
     [("src/reference/TimeSteppingMethods.h", "        double temppsix, temppsiy;\t// These values will be returned from this function\n",
       "        static double temppsix, temppsiy;\t// These values will be returned from this function\n")],
     "more than one thread updating nodes at the same time",
     "threads overwrite each other's gradient: the result depends on the number of threads and the schedule",
     sh=CFG + r'''cd "$t/ref"
for v in "nx 96" "ny 96" "Tfinal 0.2" "printstep 5"; do set_ Setting.h $v; done
g++ -std=c++14 -O0 -w -fopenmp -I "$here/ref" -I . GALS_Advection_OpenMP.cpp -o ../omp || exit 3
mkdir ../one; (cd ../one && ../omp 1 > log) || exit 4
for n in 1 2 3; do
  mkdir "../many$n"; (cd "../many$n" && ../omp 8 > log) || exit 4
  python3 "$here/cmp.py" ../one "../many$n" || exit 1
done
exit 0''', files=dict(STUBS, **{"cmp.py": CMP}))

seed("departure-time-at-edge", "C27",
     [("src/reference/SerialCode/TimeSteppingMethods.h", "        double gradvynew = gradVy(xnode, ynode, (t+1) * dt, T_period);\n", "        double gradvynew = gradVy(xnode, ynode, t * dt, T_period);\n")],
     "the Heun scheme at nodes whose departure point leaves the box through a side, in a flow that changes with time",
     "the gradient at such nodes is advanced with the velocity gradient of the wrong time level",
     sh=CFG + r'''cd "$t/ref"
for f in Setting.h SerialCode/GALS_Advection.cpp; do
  for v in "nx 13" "ny 17" "xlim2 0.7" "ylim1 0.13" "ylim2 0.83" "dt 0.03" "Tfinal 0.4" "printstep 1" "psischeme \"Heuns\""; do set_ $f $v; done
done
g++ -std=c++14 -O1 -w -fopenmp -I "$here/ref" -I . GALS_Advection_OpenMP.cpp -o ../omp || exit 3
(cd SerialCode && g++ -std=c++14 -O1 -w -I . GALS_Advection.cpp -o ../../serial) || exit 3
mkdir ../a ../b; (cd ../a && ../serial > log) || exit 4
(cd ../b && ../omp 1 > log) || exit 4
python3 "$here/cmp.py" ../a ../b''', files=dict(STUBS, **{"cmp.py": CMP}))

seed("halves-of-odd-width", "C28",
     [("src/reference/GALS_Advection_MPI_OpenMP.cpp",
       "           for(unsigned int j = nnx; j < nx; j++){  // loop for x - columns in the array\n        \tcellx[i][j]=A3[j-nnx][i];\n",
       "           for(unsigned int j = nnx; j < n_Nodes*nnx; j++){  // loop for x - columns in the array\n        \tcellx[i][j]=A3[j-nnx][i];\n")],
     "two ranks and an odd number of nodes in x",
     "the cells found by the second rank for the last column are not used",
     sh=CFG + r'''cd "$t/ref"
for v in "nx 13" "ny 11" "xlim2 0.7" "dt 0.02" "Tfinal 0.1" "printstep 1"; do set_ Setting.h $v; done
g++ -std=c++14 -O1 -w -fopenmp -I "$here/ref" -I . GALS_Advection_OpenMP.cpp -o ../omp || exit 3
g++ -std=c++14 -O1 -w -fopenmp -I "$here/ref" -I . GALS_Advection_MPI_OpenMP.cpp -o ../pair || exit 3
mkdir ../a ../b; (cd ../a && ../omp 1 > log) || exit 4
(cd ../b && timeout 120 python3 "$here/pair.py" ../pair 2) || exit 4
python3 "$here/cmp.py" ../a ../b''', files=dict(STUBS, **{"cmp.py": CMP, "pair.py": PAIR}))

seed("cuda-right-edge-cell", "C29",
     [("src/reference/CUDA/AdvectionPointCalcsCUDA.cu", "                        cellx[indexToWrite] = nx-2;\n", "                        cellx[indexToWrite] = ny-2;\n")],
     "nodes in x and y of different number and a box whose right side has inflow",
     "departure points beyond the right side are interpolated in the wrong cell",
     sh=CFG + r'''cd "$t/ref"
for f in CUDA/GALS_Advection.cu SerialCode/GALS_Advection.cpp; do
  for v in "nx 17" "ny 11" "xlim1 0.1" "xlim2 0.7" "ylim2 0.83" "dt 0.02" "Tfinal 0.2" "printstep 1"; do set_ $f $v; done
done
python3 - <<'END'
import glob, re
for p in glob.glob("CUDA/*.cu"):
    t = open(p).read()
    t = re.sub(r"\b(\w+)\s*<<<(.*?)>>>\s*\(", lambda m: 'vf_cuda::launch("%s", %s, %s)(' % (m.group(1), m.group(1), m.group(2)), t, flags=re.S)
    open(p, "w").write(t)
END
(cd CUDA && g++ -std=c++14 -O1 -w -pthread -x c++ -include cuda.h -I "$here/ref" -I . GALS_Advection.cu -o ../../cuda) || exit 3
(cd SerialCode && g++ -std=c++14 -O1 -w -I . GALS_Advection.cpp -o ../../serial) || exit 3
mkdir ../a ../b; (cd ../a && ../serial > log) || exit 4
(cd ../b && ../cuda > log) || exit 4
python3 "$here/cmp.py" ../a ../b''', files=dict(STUBS, **{"cmp.py": CMP}))
