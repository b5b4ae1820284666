From 39364e6c1456ac3de2b26bdb93d6816e8034bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:37 +0000
Subject: [PATCH 01/29] fix: differentiate every vector component along every
 axis in the vector gradient

---
 src/cpu/gradient/second-order-central.cc | 4 ++--
 src/cpu/gradient/third-order.cc          | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu/gradient/second-order-central.cc b/src/cpu/gradient/second-order-central.cc
index da69738..ca00650 100644
--- a/src/cpu/gradient/second-order-central.cc
+++ b/src/cpu/gradient/second-order-central.cc
@@ -81,8 +81,8 @@ void GALS::CPU::SecondOrderCentral<T, T_GRID>::compute(const Array<T_GRID, Vec3<
             typename T_GRID::value_type one_by_dx = static_cast<typename T_GRID::value_type>(1.) / dx[cmpt];
 
             grad_alpha(i, j, k)(axis, cmpt) =
-                (alpha(i + axis_vectors(axis, 0), j + axis_vectors(axis, 1), k + axis_vectors(axis, 2))[axis] -
-                 alpha(i - axis_vectors(axis, 0), j - axis_vectors(axis, 1), k - axis_vectors(axis, 2))[axis]) *
+                (alpha(i + axis_vectors(cmpt, 0), j + axis_vectors(cmpt, 1), k + axis_vectors(cmpt, 2))[axis] -
+                 alpha(i - axis_vectors(cmpt, 0), j - axis_vectors(cmpt, 1), k - axis_vectors(cmpt, 2))[axis]) *
                 one_by_dx * static_cast<T>(0.5);
           }
         }
diff --git a/src/cpu/gradient/third-order.cc b/src/cpu/gradient/third-order.cc
index be3f517..005fd2d 100644
--- a/src/cpu/gradient/third-order.cc
+++ b/src/cpu/gradient/third-order.cc
@@ -81,11 +81,11 @@ void GALS::CPU::ThirdOrder<T, T_GRID>::compute(const Array<T_GRID, Vec3<T>> &alp
             typename T_GRID::value_type one_by_dx = static_cast<typename T_GRID::value_type>(1.) / (6 * dx[cmpt]);
 
             grad_alpha(i, j, k)(axis, cmpt) =
-                (2 * alpha(i + axis_vectors(axis, 0), j + axis_vectors(axis, 1), k + axis_vectors(axis, 2))[axis] +
+                (2 * alpha(i + axis_vectors(cmpt, 0), j + axis_vectors(cmpt, 1), k + axis_vectors(cmpt, 2))[axis] +
                  3 * alpha(i, j, k)[axis] -
-                 6 * alpha(i - axis_vectors(axis, 0), j - axis_vectors(axis, 1), k - axis_vectors(axis, 2))[axis] +
-                 1 * alpha(i - 2 * axis_vectors(axis, 0), j - 2 * axis_vectors(axis, 1),
-                           k - 2 * axis_vectors(axis, 2))[axis]) *
+                 6 * alpha(i - axis_vectors(cmpt, 0), j - axis_vectors(cmpt, 1), k - axis_vectors(cmpt, 2))[axis] +
+                 1 * alpha(i - 2 * axis_vectors(cmpt, 0), j - 2 * axis_vectors(cmpt, 1),
+                           k - 2 * axis_vectors(cmpt, 2))[axis]) *
                 one_by_dx;
           }
         }
-- 
2.43.0


From b86309d39274923ca863f01f929c70b8e572fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:37 +0000
Subject: [PATCH 02/29] fix: Vec3::min returned the third component when the
 first two tie below it

---
 src/cpu/vec3.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/vec3.cc b/src/cpu/vec3.cc
index b9a67b5..00626e1 100644
--- a/src/cpu/vec3.cc
+++ b/src/cpu/vec3.cc
@@ -76,8 +76,8 @@ const double GALS::CPU::Vec3<T>::mag() const
 template <typename T>
 const T GALS::CPU::Vec3<T>::min() const
 {
-  if (m_data[0] < m_data[1] && m_data[0] < m_data[2]) return m_data[0];
-  if (m_data[1] < m_data[0] && m_data[1] < m_data[2]) return m_data[1];
+  if (m_data[0] <= m_data[1] && m_data[0] <= m_data[2]) return m_data[0];
+  if (m_data[1] <= m_data[0] && m_data[1] <= m_data[2]) return m_data[1];
   return m_data[2];
 }
 
-- 
2.43.0


From 9b7fee0596ada0177ed4ccaf9886257ade07b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:37 +0000
Subject: [PATCH 03/29] fix: circular velocity field mixed up the x and y
 coordinates of its center

---
 src/cpu/analytical-fields/velocity.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 7bf653e..c6ac50f 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -69,8 +69,8 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
         for (int j = 0; j < num_cells[1]; ++j)
           for (int k = 0; k < num_cells[2]; ++k) {
             for (int cmpt = 0; cmpt < T_GRID::dim; ++cmpt) {
-              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center[cmpt] - positions(i, j, k)[cmpt + 1]);
-              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center[cmpt]);
+              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center[cmpt + 1] - positions(i, j, k)[cmpt + 1]);
+              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center[cmpt - 1]);
             }
 
             velocity(i, j, k) = velocity_node;
-- 
2.43.0


From eba5f0d7e95328be478967db3f4d2997ac2e6158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:37 +0000
Subject: [PATCH 04/29] fix: analytical velocity gradient was written to the
 first cells instead of every cell

---
 src/cpu/analytical-fields/velocity.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index c6ac50f..4a058dd 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -85,10 +85,10 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
             for (int k = 0; k < num_cells[2]; ++k) {
               for (int cmpt = 0; cmpt < T_GRID::dim; ++cmpt) {
                 for (int derv = 0; derv < T_GRID::dim; ++derv) {
-                  if (cmpt == 0 && derv == 0) velocity_gradient[cmpt][derv] = static_cast<T>(0);
-                  if (cmpt == 0 && derv == 1) velocity_gradient[cmpt][derv] = -coeff;
-                  if (cmpt == 1 && derv == 0) velocity_gradient[cmpt][derv] = coeff;
-                  if (cmpt == 1 && derv == 1) velocity_gradient[cmpt][derv] = static_cast<T>(0);
+                  if (cmpt == 0 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
+                  if (cmpt == 0 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = -coeff;
+                  if (cmpt == 1 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = coeff;
+                  if (cmpt == 1 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
                 }
               }
             }
-- 
2.43.0


From 78b6f8ce37518e134e2d7f08799e40758a778ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:37 +0000
Subject: [PATCH 05/29] fix: signed overflow in Grid::index for the indices
 baseNodeId gives on inactive axes

---
 src/cpu/grid.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/grid.cc b/src/cpu/grid.cc
index 00a7f95..c2af1a2 100644
--- a/src/cpu/grid.cc
+++ b/src/cpu/grid.cc
@@ -116,8 +116,8 @@ const int GALS::CPU::Grid<T, DIM>::getPadding() const
 template <typename T, int DIM>
 const std::size_t GALS::CPU::Grid<T, DIM>::index(const int i, const int j, const int k) const
 {
-  const std::size_t idx = ((k + m_pad) * (m_nx + 2 * m_pad) * (m_ny + 2 * m_pad) * m_mask[2]) +
-                          ((j + m_pad) * (m_nx + 2 * m_pad) * m_mask[1]) + ((i + m_pad) * m_mask[0]);
+  const std::size_t idx = ((k * m_mask[2] + m_pad) * (m_nx + 2 * m_pad) * (m_ny + 2 * m_pad) * m_mask[2]) +
+                          ((j * m_mask[1] + m_pad) * (m_nx + 2 * m_pad) * m_mask[1]) + ((i + m_pad) * m_mask[0]);
 
   return idx;
 }
-- 
2.43.0


From b95350c659b2f0b5ea3ddde7f015bcd478ed6803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:37 +0000
Subject: [PATCH 06/29] fix: cell positions were shifted whenever the grid
 padding is not 1

---
 src/cpu/grid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/grid.cc b/src/cpu/grid.cc
index c2af1a2..d3926c4 100644
--- a/src/cpu/grid.cc
+++ b/src/cpu/grid.cc
@@ -188,7 +188,7 @@ void GALS::CPU::Grid<T, DIM>::generate(T x_min, T x_max, T y_min, T y_max, T z_m
 
   for (int i = 0; i < DIM; ++i) m_one_over_dx[i] = static_cast<T>(1.) / m_dx[i];
 
-  for (int i = 0; i < DIM; ++i) domain_min_new[i] = domain_min[i] + (m_dx[i] * 0.5) - (m_dx[i] * m_mask[i]);
+  for (int i = 0; i < DIM; ++i) domain_min_new[i] = domain_min[i] + (m_dx[i] * 0.5) - (m_dx[i] * m_pad * m_mask[i]);
 
   Vec3<T> elem;
 
-- 
2.43.0


From 6b443c9e87d676ea205997383ae9cdee9435279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 07/29] fix: out-of-bounds read when the grid section lists
 fewer than three cell counts

---
 src/cpu/input-parser/grid.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpu/input-parser/grid.cc b/src/cpu/input-parser/grid.cc
index 39041ca..9b58de1 100644
--- a/src/cpu/input-parser/grid.cc
+++ b/src/cpu/input-parser/grid.cc
@@ -51,9 +51,9 @@ void GALS::INPUT_PARSER::Grid::parse(const YAML::Node &field, GALS::INPUT_FIELDS
   input_fields.m_grid->z_max = field["box"]["z_max"].as<double>();
 
   // Number of cells.
-  input_fields.m_grid->nx = field["cells"].as<std::vector<int>>()[0];
-  input_fields.m_grid->ny = field["cells"].as<std::vector<int>>()[1];
-  input_fields.m_grid->nz = field["cells"].as<std::vector<int>>()[2];
+  input_fields.m_grid->nx = field["cells"].as<std::vector<int>>().at(0);
+  input_fields.m_grid->ny = field["cells"].as<std::vector<int>>().at(1);
+  input_fields.m_grid->nz = field["cells"].as<std::vector<int>>().at(2);
 }
 
 void GALS::INPUT_PARSER::Grid::operator()(const YAML::Node &field, GALS::INPUT_FIELDS::InputFields *p_input_fields)
-- 
2.43.0


From 4e874ca7825be8f1578b3f9e0bdfd08836746e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 08/29] fix: out-of-bounds read when Vec3 is built from a
 vector with fewer than three values

---
 src/cpu/vec3.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpu/vec3.cc b/src/cpu/vec3.cc
index 00626e1..7860840 100644
--- a/src/cpu/vec3.cc
+++ b/src/cpu/vec3.cc
@@ -46,9 +46,9 @@ GALS::CPU::Vec3<T>::Vec3(const std::vector<T> a)
 {
   if (a.size() != 3) GALS_ABORT("While constructing Vec3 object using std::vector, input must be of size 3.");
 
-  m_data[0] = a[0];
-  m_data[1] = a[1];
-  m_data[2] = a[2];
+  m_data[0] = a.at(0);
+  m_data[1] = a.at(1);
+  m_data[2] = a.at(2);
 }
 
 template <typename T>
-- 
2.43.0


From c2658a1abf6a3382c849296277124a4f51c809ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 09/29] fix: out-of-bounds read when the velocity center has
 fewer than two coordinates

---
 src/cpu/analytical-fields/velocity.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 4a058dd..5178f59 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -69,8 +69,8 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
         for (int j = 0; j < num_cells[1]; ++j)
           for (int k = 0; k < num_cells[2]; ++k) {
             for (int cmpt = 0; cmpt < T_GRID::dim; ++cmpt) {
-              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center[cmpt + 1] - positions(i, j, k)[cmpt + 1]);
-              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center[cmpt - 1]);
+              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center.at(cmpt + 1) - positions(i, j, k)[cmpt + 1]);
+              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center.at(cmpt - 1));
             }
 
             velocity(i, j, k) = velocity_node;
-- 
2.43.0


From b6216cd4a7c5e9ac205f638bda4c32bd4135a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 10/29] fix: fields of input sections absent from the file had
 indeterminate values

---
 src/cpu/input-fields/input-fields.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cpu/input-fields/input-fields.cc b/src/cpu/input-fields/input-fields.cc
index 469e761..b397d6b 100644
--- a/src/cpu/input-fields/input-fields.cc
+++ b/src/cpu/input-fields/input-fields.cc
@@ -32,11 +32,11 @@
 #include "gals/input-fields/input-fields.h"
 
 GALS::INPUT_FIELDS::InputFields::InputFields()
-    : m_general(new GALS::INPUT_FIELDS::General),
-      m_grid(new GALS::INPUT_FIELDS::Grid),
-      m_time(new GALS::INPUT_FIELDS::Time),
-      m_velocity(new GALS::INPUT_FIELDS::Velocity),
-      m_levelset(new GALS::INPUT_FIELDS::Levelset)
+    : m_general(new GALS::INPUT_FIELDS::General()),
+      m_grid(new GALS::INPUT_FIELDS::Grid()),
+      m_time(new GALS::INPUT_FIELDS::Time()),
+      m_velocity(new GALS::INPUT_FIELDS::Velocity()),
+      m_levelset(new GALS::INPUT_FIELDS::Levelset())
 {
 }
 
-- 
2.43.0


From 131e88e13904152de514414e286bf3939226f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 11/29] fix: advection application read outside its arrays, the
 gradient scheme needs two ghost cells

---
 applications/advection/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index ddbe361..ad8e7f4 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -78,6 +78,7 @@ int main(int argc, char **argv)
   // Construct grid.
   const auto &grid_inputs = *(input_fields.m_grid);
   T_GRID grid(grid_inputs.nx, grid_inputs.ny, grid_inputs.nz);
+  grid.setPadding(2);  // ThirdOrder gradient reads two cells beyond the first.
   grid.generate(grid_inputs.x_min, grid_inputs.x_max, grid_inputs.y_min, grid_inputs.y_max, grid_inputs.z_min,
                 grid_inputs.z_max);
 
-- 
2.43.0


From fa8b38ecc6166fd5f900e77a4204613de343890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 12/29] fix: advection application ignored the configured start
 time

---
 applications/advection/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index ad8e7f4..51dfb3f 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -129,7 +129,7 @@ int main(int argc, char **argv)
   T t_end = time_inputs.end;
   T dt = time_inputs.dt;
   bool is_dt_fixed = std::strcmp(time_inputs.constant_dt.c_str(), "NO");
-  T sim_time = static_cast<T>(0);
+  T sim_time = t_start;
 
   if (!is_dt_fixed) {
     dt = grid.dX().min() * static_cast<T>(0.5);
-- 
2.43.0


From ab6e63576a216e26afb9092a15155e62b388e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:26 +0000
Subject: [PATCH 13/29] fix: looking up an unknown field name modified the
 shared name tables, a data race between threads

---
 src/cpu/analytical-fields/levelset.cc | 4 +++-
 src/cpu/analytical-fields/velocity.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cpu/analytical-fields/levelset.cc b/src/cpu/analytical-fields/levelset.cc
index 03d006d..92bfff1 100644
--- a/src/cpu/analytical-fields/levelset.cc
+++ b/src/cpu/analytical-fields/levelset.cc
@@ -50,7 +50,9 @@ void GALS::ANALYTICAL_FIELDS::Levelset<T_GRID, T>::compute(
   const GALS::CPU::Vec3<int> num_cells = positions.numCells();
   const auto& levelset_name = m_inputs.name;
 
-  switch (levelset_name_map[levelset_name]) {
+  const auto name_entry = levelset_name_map.find(levelset_name);
+
+  switch (name_entry == levelset_name_map.end() ? LevelsetFieldNames::NOT_DEFINED : name_entry->second) {
     case LevelsetFieldNames::CIRCLE: {
       auto& phi = levelset.phi();
 
diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 5178f59..cadcf47 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -54,7 +54,9 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
   const GALS::CPU::Vec3<int> num_cells = positions.numCells();
   const auto& velocity_name = m_inputs.name;
 
-  switch (velocity_name_map[velocity_name]) {
+  const auto name_entry = velocity_name_map.find(velocity_name);
+
+  switch (name_entry == velocity_name_map.end() ? VelocityFieldNames::NOT_DEFINED : name_entry->second) {
     case VelocityFieldNames::CIRCULAR: {
       auto& velocity = levelset_velocity.velocity();
 
-- 
2.43.0


From a9354851411fffc2e17452c305ac6bdb3be122d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:26 +0000
Subject: [PATCH 14/29] fix: data race on the temporaries of the OpenMP
 mixed-derivative update

---
 src/reference/AdvectionPointCalcs.h            | 2 +-
 src/reference/SerialCode/AdvectionPointCalcs.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reference/AdvectionPointCalcs.h b/src/reference/AdvectionPointCalcs.h
index c799590..bd60cdd 100755
--- a/src/reference/AdvectionPointCalcs.h
+++ b/src/reference/AdvectionPointCalcs.h
@@ -381,7 +381,7 @@ double dxy1, dxy2;
 double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
 # pragma omp parallel
 {
-# pragma omp for schedule(static) collapse(2) 
+# pragma omp for schedule(static) collapse(2) private(dxy1, dxy2, d1, d2, d3, d4)
 for(unsigned int k = 0; k < ny; k++){
     for(unsigned int l = 0; l < nx; l++){
         if ((k == 0 || k == ny - 1) && (l != 0 && l != nx - 1)){
diff --git a/src/reference/SerialCode/AdvectionPointCalcs.h b/src/reference/SerialCode/AdvectionPointCalcs.h
index c799590..bd60cdd 100755
--- a/src/reference/SerialCode/AdvectionPointCalcs.h
+++ b/src/reference/SerialCode/AdvectionPointCalcs.h
@@ -381,7 +381,7 @@ double dxy1, dxy2;
 double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
 # pragma omp parallel
 {
-# pragma omp for schedule(static) collapse(2) 
+# pragma omp for schedule(static) collapse(2) private(dxy1, dxy2, d1, d2, d3, d4)
 for(unsigned int k = 0; k < ny; k++){
     for(unsigned int l = 0; l < nx; l++){
         if ((k == 0 || k == ny - 1) && (l != 0 && l != nx - 1)){
-- 
2.43.0


From bc2f095a244315dd8df9f544a3170171a41d90e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:34 +0000
Subject: [PATCH 15/29] fix: MPI codes sent double buffers as MPI_FLOAT, so
 half of each message never arrived

---
 src/reference/GALS_Advection_MPI.cpp        | 20 ++++++++++----------
 src/reference/GALS_Advection_MPI_OpenMP.cpp | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/reference/GALS_Advection_MPI.cpp b/src/reference/GALS_Advection_MPI.cpp
index f0c07ab..59d95e9 100755
--- a/src/reference/GALS_Advection_MPI.cpp
+++ b/src/reference/GALS_Advection_MPI.cpp
@@ -146,8 +146,8 @@ int main(int argc, char **argv){
             advection_point_MPI(x, y, xadv, yadv, t, dt, T_period,0,nnx, backtrace_scheme);
             
             // receive the data from node-2
-            MPI_Recv(&(A1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(B1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(A1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(B1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
             
             
             // populate the full data to xadv and yadv
@@ -169,9 +169,9 @@ int main(int argc, char **argv){
             find_advection_point_location_MPI(x, y, xadv, yadv, cellx, celly, tracker, xlim1, xlim2, ylim1, ylim2,0,nnx);
             
             // receive the data from node-2
-            MPI_Recv(&(A3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(B3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(C3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(A3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(B3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(C3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
             
             
             // populate the full data to xadv and yadv
@@ -235,8 +235,8 @@ int main(int argc, char **argv){
             }
             
             //send data to node-1
-            MPI_Send(&(A1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(B1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(A1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(B1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
             
             
             
@@ -256,9 +256,9 @@ int main(int argc, char **argv){
             }
             
             //send data to node-1
-            MPI_Send(&(A3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(B3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(C3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(A3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(B3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(C3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
             
         }  	    // end of node-2
     } // end of time marching loop
diff --git a/src/reference/GALS_Advection_MPI_OpenMP.cpp b/src/reference/GALS_Advection_MPI_OpenMP.cpp
index 998a589..f8d6fde 100755
--- a/src/reference/GALS_Advection_MPI_OpenMP.cpp
+++ b/src/reference/GALS_Advection_MPI_OpenMP.cpp
@@ -150,8 +150,8 @@ int main(int argc, char **argv){
         advection_point_MPI(x, y, xadv, yadv, t, dt, T_period,0,nnx, backtrace_scheme);
 
 	// receive the data from node-2
-	MPI_Recv(&(A1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-        MPI_Recv(&(B1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(A1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+        MPI_Recv(&(B1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
 
 	// populate the recevied data to the current data array
 	# pragma omp parallel
@@ -175,9 +175,9 @@ int main(int argc, char **argv){
 	find_advection_point_location_MPI(x, y, xadv, yadv, cellx, celly, tracker, xlim1, xlim2, ylim1, ylim2,0,nnx);
 
 	// receive the data from node-2
-	MPI_Recv(&(A3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-        MPI_Recv(&(B3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-	MPI_Recv(&(C3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(A3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+        MPI_Recv(&(B3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(C3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
 
 	// populate the recevied data to the current data array
 	# pragma omp parallel
@@ -252,8 +252,8 @@ int main(int argc, char **argv){
 	}
 
 	//send data to node-1
-	MPI_Send(&(A1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-        MPI_Send(&(B1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(A1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+        MPI_Send(&(B1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
 
 	// end of fct-1
         //---------------------------------------------------------------------------
@@ -279,9 +279,9 @@ int main(int argc, char **argv){
 	}
 
 	//send data to node-1
-	MPI_Send(&(A3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-        MPI_Send(&(B3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-	MPI_Send(&(C3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(A3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+        MPI_Send(&(B3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(C3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
 	// end of fct-2
 	// ---------------------------------------------------------------------------	
 
-- 
2.43.0


From 5544926067e8f6e1361be1d18c9170eccac403fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:34 +0000
Subject: [PATCH 16/29] fix: MPI codes overran the exchange buffers when the
 number of nodes along x is odd

---
 src/reference/GALS_Advection_MPI.cpp        | 30 ++++++++++-----------
 src/reference/GALS_Advection_MPI_OpenMP.cpp | 24 ++++++++---------
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/reference/GALS_Advection_MPI.cpp b/src/reference/GALS_Advection_MPI.cpp
index 59d95e9..a26d7b4 100755
--- a/src/reference/GALS_Advection_MPI.cpp
+++ b/src/reference/GALS_Advection_MPI.cpp
@@ -128,11 +128,11 @@ int main(int argc, char **argv){
         double **A1, **B1, **A3, **B3, **C3;
         unsigned int nnx = nx/n_Nodes;
         
-        A1 = alloc_2d_int(nnx,ny);
-        B1 = alloc_2d_int(nnx,ny);
-        A3 = alloc_2d_int(nnx,ny);
-        B3 = alloc_2d_int(nnx,ny);
-        C3 = alloc_2d_int(nnx,ny);
+        A1 = alloc_2d_int(nx-nnx,ny);
+        B1 = alloc_2d_int(nx-nnx,ny);
+        A3 = alloc_2d_int(nx-nnx,ny);
+        B3 = alloc_2d_int(nx-nnx,ny);
+        C3 = alloc_2d_int(nx-nnx,ny);
         // end of initialization
         
 // 	advection_point_MPI(x, y, xadv, yadv, t, dt, T_period,0,nx, backtrace_scheme);
@@ -146,8 +146,8 @@ int main(int argc, char **argv){
             advection_point_MPI(x, y, xadv, yadv, t, dt, T_period,0,nnx, backtrace_scheme);
             
             // receive the data from node-2
-            MPI_Recv(&(A1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(B1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(A1[0][0]), ny*(nx-nnx), MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(B1[0][0]), ny*(nx-nnx), MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
             
             
             // populate the full data to xadv and yadv
@@ -169,9 +169,9 @@ int main(int argc, char **argv){
             find_advection_point_location_MPI(x, y, xadv, yadv, cellx, celly, tracker, xlim1, xlim2, ylim1, ylim2,0,nnx);
             
             // receive the data from node-2
-            MPI_Recv(&(A3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(B3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(C3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(A3[0][0]), ny*(nx-nnx), MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(B3[0][0]), ny*(nx-nnx), MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(C3[0][0]), ny*(nx-nnx), MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
             
             
             // populate the full data to xadv and yadv
@@ -235,8 +235,8 @@ int main(int argc, char **argv){
             }
             
             //send data to node-1
-            MPI_Send(&(A1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(B1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(A1[0][0]), ny*(nx-nnx), MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(B1[0][0]), ny*(nx-nnx), MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
             
             
             
@@ -256,9 +256,9 @@ int main(int argc, char **argv){
             }
             
             //send data to node-1
-            MPI_Send(&(A3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(B3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(C3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(A3[0][0]), ny*(nx-nnx), MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(B3[0][0]), ny*(nx-nnx), MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(C3[0][0]), ny*(nx-nnx), MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
             
         }  	    // end of node-2
     } // end of time marching loop
diff --git a/src/reference/GALS_Advection_MPI_OpenMP.cpp b/src/reference/GALS_Advection_MPI_OpenMP.cpp
index f8d6fde..0170fe0 100755
--- a/src/reference/GALS_Advection_MPI_OpenMP.cpp
+++ b/src/reference/GALS_Advection_MPI_OpenMP.cpp
@@ -137,8 +137,8 @@ int main(int argc, char **argv){
 	double **A1, **B1, **A3, **B3, **C3;
 	unsigned int nnx = nx/n_Nodes;
 
-	A1 = alloc_2d_int(nnx,ny);      B1 = alloc_2d_int(nnx,ny);
-	A3 = alloc_2d_int(nnx,ny);	B3 = alloc_2d_int(nnx,ny);   	C3 = alloc_2d_int(nnx,ny);
+	A1 = alloc_2d_int(nx-nnx,ny);      B1 = alloc_2d_int(nx-nnx,ny);
+	A3 = alloc_2d_int(nx-nnx,ny);	B3 = alloc_2d_int(nx-nnx,ny);   	C3 = alloc_2d_int(nx-nnx,ny);
 	// end of initialization
 
    // node-1
@@ -150,8 +150,8 @@ int main(int argc, char **argv){
         advection_point_MPI(x, y, xadv, yadv, t, dt, T_period,0,nnx, backtrace_scheme);
 
 	// receive the data from node-2
-	MPI_Recv(&(A1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
-        MPI_Recv(&(B1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(A1[0][0]), ny*(nx-nnx), MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+        MPI_Recv(&(B1[0][0]), ny*(nx-nnx), MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
 
 	// populate the recevied data to the current data array
 	# pragma omp parallel
@@ -175,9 +175,9 @@ int main(int argc, char **argv){
 	find_advection_point_location_MPI(x, y, xadv, yadv, cellx, celly, tracker, xlim1, xlim2, ylim1, ylim2,0,nnx);
 
 	// receive the data from node-2
-	MPI_Recv(&(A3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
-        MPI_Recv(&(B3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
-	MPI_Recv(&(C3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(A3[0][0]), ny*(nx-nnx), MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+        MPI_Recv(&(B3[0][0]), ny*(nx-nnx), MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(C3[0][0]), ny*(nx-nnx), MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
 
 	// populate the recevied data to the current data array
 	# pragma omp parallel
@@ -252,8 +252,8 @@ int main(int argc, char **argv){
 	}
 
 	//send data to node-1
-	MPI_Send(&(A1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
-        MPI_Send(&(B1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(A1[0][0]), ny*(nx-nnx), MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+        MPI_Send(&(B1[0][0]), ny*(nx-nnx), MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
 
 	// end of fct-1
         //---------------------------------------------------------------------------
@@ -279,9 +279,9 @@ int main(int argc, char **argv){
 	}
 
 	//send data to node-1
-	MPI_Send(&(A3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
-        MPI_Send(&(B3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
-	MPI_Send(&(C3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(A3[0][0]), ny*(nx-nnx), MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+        MPI_Send(&(B3[0][0]), ny*(nx-nnx), MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(C3[0][0]), ny*(nx-nnx), MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
 	// end of fct-2
 	// ---------------------------------------------------------------------------	
 
-- 
2.43.0


From 8de4b77a5501c1ef909e75560eb5aef29dccaeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:56 +0000
Subject: [PATCH 17/29] fix: every MPI rank removed and appended to the output
 files, so details.txt and the initial fields were written twice

---
 src/reference/GALS_Advection_MPI.cpp        | 28 ++++++++++++---------
 src/reference/GALS_Advection_MPI_OpenMP.cpp | 18 +++++++------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/reference/GALS_Advection_MPI.cpp b/src/reference/GALS_Advection_MPI.cpp
index a26d7b4..2d8de1c 100755
--- a/src/reference/GALS_Advection_MPI.cpp
+++ b/src/reference/GALS_Advection_MPI.cpp
@@ -78,14 +78,16 @@ int main(int argc, char **argv){
     
     
     // Removing existing files with these names if any
-    remove("phi.txt");
-    remove("psix.txt");
-    remove("psiy.txt");
-    remove("psixy.txt");
-    remove("details.txt");
-    remove("Velocity_x.txt");
-    remove("Velocity_y.txt");
-    fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    if(ctx.rank() == 0){
+        remove("phi.txt");
+        remove("psix.txt");
+        remove("psiy.txt");
+        remove("psixy.txt");
+        remove("details.txt");
+        remove("Velocity_x.txt");
+        remove("Velocity_y.txt");
+        fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    }
     
     /*
      * Let the following represent one cell
@@ -103,10 +105,12 @@ int main(int argc, char **argv){
      *
      */
     
-    ofstream details;
-    details.open("details.txt", ios::out | ios::app);
-    details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
-    details.close();
+    if(ctx.rank() == 0){
+        ofstream details;
+        details.open("details.txt", ios::out | ios::app);
+        details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
+        details.close();
+    }
     
     // TIME STEPPING LOOP
     // If only the initial and final profiles are needed
diff --git a/src/reference/GALS_Advection_MPI_OpenMP.cpp b/src/reference/GALS_Advection_MPI_OpenMP.cpp
index 0170fe0..64ede2b 100755
--- a/src/reference/GALS_Advection_MPI_OpenMP.cpp
+++ b/src/reference/GALS_Advection_MPI_OpenMP.cpp
@@ -91,9 +91,11 @@ int main(int argc, char **argv){
 
 
     // Removing existing files with these names if any
-    remove("phi.txt");         remove("psix.txt");         remove("psiy.txt");     remove("psixy.txt");  
-    remove("Velocity_x.txt");  remove("Velocity_y.txt");   remove("details.txt");
-    fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    if(ctx.rank() == 0){
+        remove("phi.txt");         remove("psix.txt");         remove("psiy.txt");     remove("psixy.txt");  
+        remove("Velocity_x.txt");  remove("Velocity_y.txt");   remove("details.txt");
+        fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    }
 
     /*
      * Let the following represent one cell
@@ -111,10 +113,12 @@ int main(int argc, char **argv){
      *
      */
 
-    ofstream details;
-    details.open("details.txt", ios::out | ios::app);
-    details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
-    details.close();
+    if(ctx.rank() == 0){
+        ofstream details;
+        details.open("details.txt", ios::out | ios::app);
+        details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
+        details.close();
+    }
 
     // TIME STEPPING LOOP
     // If only the initial and final profiles are needed
-- 
2.43.0


From ef4ec77f3671cd9d75ab20b90ff5d99cc57d2054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:56 +0000
Subject: [PATCH 18/29] fix: explicit Euler subtracted the x velocity instead
 of velocity dot gradient

---
 src/cpu/temporal-schemes/euler.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpu/temporal-schemes/euler.cc b/src/cpu/temporal-schemes/euler.cc
index 6e1efd9..ce53442 100644
--- a/src/cpu/temporal-schemes/euler.cc
+++ b/src/cpu/temporal-schemes/euler.cc
@@ -49,6 +49,7 @@ void GALS::TEMPORAL_SCHEMES::Euler<T, T_GRID>::compute(const T dt,
                                                        GALS::CPU::Levelset<T_GRID, T> &levelset)
 {
   const auto &phi_prev = levelset.phiPrev();
+  const auto &psi_prev = levelset.psiPrev();
   auto &phi = levelset.phi();
   const GALS::CPU::Vec3<int> num_cells = phi.numCells();
   const auto &velocity = levelset_velocity.velocity();
@@ -56,7 +57,10 @@ void GALS::TEMPORAL_SCHEMES::Euler<T, T_GRID>::compute(const T dt,
   for (int i = 0; i < num_cells[0]; ++i)
     for (int j = 0; j < num_cells[1]; ++j)
       for (int k = 0; k < num_cells[2]; ++k) {
-        phi(i, j, k) = phi_prev(i, j, k) - dt * velocity(i, j, k)[0];  // FIXME
+        T advection = static_cast<T>(0);
+        for (int axis = 0; axis < T_GRID::dim; ++axis) advection += velocity(i, j, k)[axis] * psi_prev(i, j, k)[axis];
+
+        phi(i, j, k) = phi_prev(i, j, k) - dt * advection;
       }
 }
 
-- 
2.43.0


From 0d1f933cbe1a059ca314dd3699f5e33f1fc6adc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:28 +0000
Subject: [PATCH 19/29] fix: automatic time step of the 2D application used the
 z extent, and was zero for z_min == z_max

---
 applications/advection/main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index 51dfb3f..a83ebbc 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -29,6 +29,7 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 ///////////////////////////////////////////////////////////////////////////////
 
+#include <algorithm>
 #include <iostream>
 #include <string>
 
@@ -132,7 +133,7 @@ int main(int argc, char **argv)
   T sim_time = t_start;
 
   if (!is_dt_fixed) {
-    dt = grid.dX().min() * static_cast<T>(0.5);
+    dt = std::min(grid.dX()[0], grid.dX()[1]) * static_cast<T>(0.5);
   }
 
   // Time loop
-- 
2.43.0


From 2c9619454697887118ba0fc88a246d155452984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:19 +0000
Subject: [PATCH 20/29] fix: GALS_ABORT and GALS_FUNCTION_NOT_IMPLEMENTED after
 an if exited unconditionally outside test builds

---
 include/gals/utilities/utilities.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/gals/utilities/utilities.h b/include/gals/utilities/utilities.h
index 3261c35..bf77167 100644
--- a/include/gals/utilities/utilities.h
+++ b/include/gals/utilities/utilities.h
@@ -37,17 +37,21 @@
 namespace GALS
 {
 #ifndef BUILD_TESTS
-#define GALS_FUNCTION_NOT_IMPLEMENTED(var)                        \
-  std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl; \
-  exit(0);
+#define GALS_FUNCTION_NOT_IMPLEMENTED(var)                          \
+  {                                                                 \
+    std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl; \
+    exit(0);                                                        \
+  }
 #else
 #define GALS_FUNCTION_NOT_IMPLEMENTED(var) std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl;
 #endif
 
 #ifndef BUILD_TESTS
-#define GALS_ABORT(var)                        \
-  std::cout << "ERROR: " << #var << std::endl; \
-  exit(0);
+#define GALS_ABORT(var)                          \
+  {                                              \
+    std::cout << "ERROR: " << #var << std::endl; \
+    exit(0);                                     \
+  }
 #else
 #define GALS_ABORT(var) std::cout << "ERROR: " << #var << std::endl;
 #endif
-- 
2.43.0


From 7e4a70ec6d070ab6ebea68c06da55cc2bd8b9ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:20 +0000
Subject: [PATCH 21/29] fix: serial advection_point skipped the last row and
 column, whose departure points stayed at the origin

---
 src/reference/AdvectionPointCalcs.h            | 4 ++--
 src/reference/SerialCode/AdvectionPointCalcs.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reference/AdvectionPointCalcs.h b/src/reference/AdvectionPointCalcs.h
index bd60cdd..1940f57 100755
--- a/src/reference/AdvectionPointCalcs.h
+++ b/src/reference/AdvectionPointCalcs.h
@@ -62,8 +62,8 @@ namespace galsfunctions
         unsigned int nx = x.size();
         unsigned int ny = y.size();
 
-        for(unsigned int i = 0; i < ny - 1; i++){  // loop for y - rows in the array
-            for(unsigned int j = 0; j < nx - 1; j++){  // loop for x - columns in the array
+        for(unsigned int i = 0; i < ny; i++){  // loop for y - rows in the array
+            for(unsigned int j = 0; j < nx; j++){  // loop for x - columns in the array
 
                 double ux = Velx(x[j], y[i], (t + 1) * dt, T_period);
                 double vy = Vely(x[j], y[i], (t + 1) * dt, T_period);
diff --git a/src/reference/SerialCode/AdvectionPointCalcs.h b/src/reference/SerialCode/AdvectionPointCalcs.h
index bd60cdd..1940f57 100755
--- a/src/reference/SerialCode/AdvectionPointCalcs.h
+++ b/src/reference/SerialCode/AdvectionPointCalcs.h
@@ -62,8 +62,8 @@ namespace galsfunctions
         unsigned int nx = x.size();
         unsigned int ny = y.size();
 
-        for(unsigned int i = 0; i < ny - 1; i++){  // loop for y - rows in the array
-            for(unsigned int j = 0; j < nx - 1; j++){  // loop for x - columns in the array
+        for(unsigned int i = 0; i < ny; i++){  // loop for y - rows in the array
+            for(unsigned int j = 0; j < nx; j++){  // loop for x - columns in the array
 
                 double ux = Velx(x[j], y[i], (t + 1) * dt, T_period);
                 double vy = Vely(x[j], y[i], (t + 1) * dt, T_period);
-- 
2.43.0


From 6ca7a6cb9b6180ae1ce5065b9bca8eeab4761222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:03 +0000
Subject: [PATCH 22/29] fix: second component of Heun's gradient update used
 the corrected instead of the predicted first component

---
 src/reference/CUDA/TimeSteppingMethodsCUDA.cu  | 3 ++-
 src/reference/SerialCode/TimeSteppingMethods.h | 3 ++-
 src/reference/TimeSteppingMethods.h            | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reference/CUDA/TimeSteppingMethodsCUDA.cu b/src/reference/CUDA/TimeSteppingMethodsCUDA.cu
index ee31c43..74b59c9 100755
--- a/src/reference/CUDA/TimeSteppingMethodsCUDA.cu
+++ b/src/reference/CUDA/TimeSteppingMethodsCUDA.cu
@@ -21,8 +21,9 @@ __device__ void Heuns_internal(double xnode, double ynode, double xadv, double y
     temppsiy[indexToWrite] = rootpsiy - dt * (graduyroot * rootpsix + gradvyroot * rootpsiy);
     
     // Heun's RK-2 method - second step - for x & y
+    double predpsix = temppsix[indexToWrite];  // both components of the second step start from the first step
     temppsix[indexToWrite] = rootpsix - 0.5 * dt * (graduxroot * rootpsix + gradvxroot * rootpsiy + graduxnode * temppsix[indexToWrite] + gradvxnode * temppsiy[indexToWrite]);
-    temppsiy[indexToWrite] = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * temppsix[indexToWrite] + gradvynode * temppsiy[indexToWrite]);
+    temppsiy[indexToWrite] = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * predpsix + gradvynode * temppsiy[indexToWrite]);
 }
 
 __device__ double Heuns_X(double xnode, double ynode, double rootpsix, double rootpsiy, double temppsixy, double temppsix,
diff --git a/src/reference/SerialCode/TimeSteppingMethods.h b/src/reference/SerialCode/TimeSteppingMethods.h
index e82d5da..5abdeb9 100755
--- a/src/reference/SerialCode/TimeSteppingMethods.h
+++ b/src/reference/SerialCode/TimeSteppingMethods.h
@@ -23,8 +23,9 @@ namespace galsfunctions
         double temppsiy = rootpsiy - dt * (graduyroot * rootpsix + gradvyroot * rootpsiy);
         
         // Heun's RK-2 method - second step - for x & y
+        double predpsix = temppsix;  // both components of the second step start from the first step
         temppsix = rootpsix - 0.5 * dt * (graduxroot * rootpsix + gradvxroot * rootpsiy + graduxnode * temppsix + gradvxnode * temppsiy);
-        temppsiy = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * temppsix + gradvynode * temppsiy);
+        temppsiy = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * predpsix + gradvynode * temppsiy);
         return std::make_tuple(temppsix,temppsiy);
     }
     
diff --git a/src/reference/TimeSteppingMethods.h b/src/reference/TimeSteppingMethods.h
index e82d5da..5abdeb9 100755
--- a/src/reference/TimeSteppingMethods.h
+++ b/src/reference/TimeSteppingMethods.h
@@ -23,8 +23,9 @@ namespace galsfunctions
         double temppsiy = rootpsiy - dt * (graduyroot * rootpsix + gradvyroot * rootpsiy);
         
         // Heun's RK-2 method - second step - for x & y
+        double predpsix = temppsix;  // both components of the second step start from the first step
         temppsix = rootpsix - 0.5 * dt * (graduxroot * rootpsix + gradvxroot * rootpsiy + graduxnode * temppsix + gradvxnode * temppsiy);
-        temppsiy = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * temppsix + gradvynode * temppsiy);
+        temppsiy = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * predpsix + gradvynode * temppsiy);
         return std::make_tuple(temppsix,temppsiy);
     }
     
-- 
2.43.0


From 58466c7e16efd0315f1eada2d2570b1c8b7a0cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:50 +0000
Subject: [PATCH 23/29] fix: CUDA mixed derivative at the upper left corner
 mixed two columns in one difference

---
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index a5659b8..d76835f 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -234,7 +234,7 @@ __global__ void update_mixed_derivatives(double *temppsix, double *temppsiy, dou
                 else if(index_y == ny-1 && index_x == 0){
                     double d1 = (temppsiy[nx *(ny-2) + 1] - temppsiy[nx *(ny-2)])/dx;
                     double d2 = (temppsix[nx *(ny-1)] - temppsix[nx *(ny-2)])/dy;
-                    double d3 = (temppsix[nx *(ny-1)] - temppsix[nx *(ny-2) + 1])/dy;
+                    double d3 = (temppsix[nx *(ny-1) + 1] - temppsix[nx *(ny-2) + 1])/dy;
                     double d4 = (temppsiy[nx *(ny-1) + 1] - temppsiy[nx *(ny-1)])/dx;
                     temppsixy[indexToWrite] = 0.75 * (d2 + d4) - 0.25 * (d3 + d1);
                     
-- 
2.43.0


From 24e2f28aea7a4d1933fd4792ff05664c3a187714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:50 +0000
Subject: [PATCH 24/29] fix: CUDA update read through uninitialised cell
 indices where both coordinates leave the domain

---
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index d76835f..e40ca56 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -113,7 +113,11 @@ __global__ void find_advection_point_location_cuda(double *x, double *y, double
             }
             else
                 if(xoutofbounds && youtofbounds)
+                {
                     tracker[indexToWrite] = 4;
+                    cellx[indexToWrite] = 0;
+                    celly[indexToWrite] = 0;
+                }
 }
 
 __global__ void update_levelset_data_cuda(double *x, double *y, double *xadv, double *yadv, unsigned int *cellx,
-- 
2.43.0


From dc553862ff6d4c4ba51a357190bdf1c2a4e22b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:50 +0000
Subject: [PATCH 25/29] fix: CUDA output held half of psiy and the initial
 psixy: both were not copied back

---
 src/reference/CUDA/GALS_Advection.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reference/CUDA/GALS_Advection.cu b/src/reference/CUDA/GALS_Advection.cu
index e9571d5..7187180 100755
--- a/src/reference/CUDA/GALS_Advection.cu
+++ b/src/reference/CUDA/GALS_Advection.cu
@@ -196,12 +196,12 @@ int main(){
             cudaEventRecord(startEvent,0);
             cudaMemcpy(mphi, masterdphi, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
             cudaMemcpy(mpsix, masterdpsix, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
-            cudaMemcpy(mpsiy, masterdpsiy, gridmemoryint, cudaMemcpyDeviceToHost);      // Writing back to host memory
+            cudaMemcpy(mpsiy, masterdpsiy, gridmemory, cudaMemcpyDeviceToHost);      // Writing back to host memory
+            cudaMemcpy(mpsixy, dpsixy, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
             cudaEventRecord(stopEvent,0);
             cudaEventSynchronize(stopEvent);
             cudaEventElapsedTime(&tempt, startEvent, stopEvent);
             t_transfer += tempt;
-            //cudaMemcpy(mpsixy, masterdpsixy, gridmemoryint, cudaMemcpyDeviceToHost);  // Writing back to host memory
             fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,(t+1)*dt,T_period);
         }
         cout<< t+1;
-- 
2.43.0


From 65f3f21ce2ae2f4f33996d207bc3ec3f50af6870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:50 +0000
Subject: [PATCH 26/29] fix: CUDA kernels skipped the nodes beyond the last
 full tile

---
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu | 14 +++++++++++++-
 src/reference/CUDA/Allocation.h               |  3 +++
 src/reference/CUDA/GALS_Advection.cu          |  6 +++---
 src/reference/CUDA/HermiteCUDA.cu             |  5 ++++-
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index e40ca56..235ec2b 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -9,7 +9,7 @@ in the 2D grid and update the level set.
 #ifndef _AdvectionPointCalcsCUDA_h
 #define _AdvectionPointCalcsCIDA_h
 
-__global__ void advection_point_cuda(double *x, double *y, double *xadv, double *yadv, unsigned int nx,
+__global__ void advection_point_cuda(double *x, double *y, double *xadv, double *yadv, unsigned int nx, unsigned int ny,
         unsigned int t, double dt, double T_period, unsigned int TileSize)
 {
     double c1 = (1/6.0);
@@ -25,6 +25,9 @@ __global__ void advection_point_cuda(double *x, double *y, double *xadv, double
     unsigned int index_x = bx * TileSize + tx;
     unsigned int index_y = by * TileSize + ty;
     
+    if(index_x >= nx || index_y >= ny)
+        return;
+    
     double ux = Velx(x[index_x], y[index_y], (t + 1) * dt, T_period);
     double vy = Vely(x[index_x], y[index_y], (t + 1) * dt, T_period);
     
@@ -73,6 +76,9 @@ __global__ void find_advection_point_location_cuda(double *x, double *y, double
     unsigned int index_x = bx * TileSize + tx;
     unsigned int index_y = by * TileSize + ty;
     
+    if(index_x >= nx || index_y >= ny)
+        return;
+    
     unsigned int indexToWrite = index_y * nx + index_x;
     
     bool xoutofbounds = false;
@@ -134,6 +140,9 @@ __global__ void update_levelset_data_cuda(double *x, double *y, double *xadv, do
     unsigned int index_x = bx * TileSize + tx;
     unsigned int index_y = by * TileSize + ty;
     
+    if(index_x >= nx || index_y >= ny)
+        return;
+    
     unsigned int indexToWrite = index_y * nx + index_x;
     
     double dx = x[2] - x[1];
@@ -211,6 +220,9 @@ __global__ void update_mixed_derivatives(double *temppsix, double *temppsiy, dou
     unsigned int index_x = bx * TileSize + tx;
     unsigned int index_y = by * TileSize + ty;
     
+    if(index_x >= nx || index_y >= ny)
+        return;
+    
     unsigned int indexToWrite = index_y * nx + index_x;
     
     if ((index_y == 0 || index_y == ny - 1) && (index_x != 0 && index_x != nx - 1))
diff --git a/src/reference/CUDA/Allocation.h b/src/reference/CUDA/Allocation.h
index c4f293c..b644988 100755
--- a/src/reference/CUDA/Allocation.h
+++ b/src/reference/CUDA/Allocation.h
@@ -25,6 +25,9 @@ __global__ void allocate_levelset_matrices_CUDA(double *mphi, double *mpsix, dou
     unsigned int index_x = bx * blockDim.x + tx;
     unsigned int index_y = by * blockDim.x + ty;
     
+    if(index_x >= nx || index_y >= ny)
+        return;
+    
     unsigned int indexToWrite = index_y * nx + index_x;
     
     double x_t = x[index_x];
diff --git a/src/reference/CUDA/GALS_Advection.cu b/src/reference/CUDA/GALS_Advection.cu
index 7187180..4c82641 100755
--- a/src/reference/CUDA/GALS_Advection.cu
+++ b/src/reference/CUDA/GALS_Advection.cu
@@ -67,7 +67,7 @@ int main(){
         printstep = n;
     
     dim3 dimBlock(TileSize, TileSize);
-    dim3 dimGrid(nx/dimBlock.x, ny/dimBlock.y);
+    dim3 dimGrid((nx + dimBlock.x - 1)/dimBlock.x, (ny + dimBlock.y - 1)/dimBlock.y);
     
     // Node Locations
     double dx = (xlim2 - xlim1)/(nx - 1);
@@ -149,7 +149,7 @@ int main(){
         
         // Find the point from which advection occurs at this time step
         cudaEventRecord(startEvent,0);
-        advection_point_cuda<<<dimGrid,dimBlock>>>(devicex,devicey,dxadv,dyadv,nx,t,dt,T_period,TileSize);
+        advection_point_cuda<<<dimGrid,dimBlock>>>(devicex,devicey,dxadv,dyadv,nx,ny,t,dt,T_period,TileSize);
         cudaEventRecord(stopEvent,0);
         cudaEventSynchronize(stopEvent);
         cudaEventElapsedTime(&tempt, startEvent, stopEvent);
@@ -173,7 +173,7 @@ int main(){
         
         // Create another copy to preserve data which gets modified on the fly in next loop
         cudaEventRecord(startEvent,0);
-        devicetodevicecopy<<<dimGrid,dimBlock>>>(dphi,dpsix,dpsiy,masterdphi,masterdpsix,masterdpsiy,nx,TileSize);
+        devicetodevicecopy<<<dimGrid,dimBlock>>>(dphi,dpsix,dpsiy,masterdphi,masterdpsix,masterdpsiy,nx,ny,TileSize);
         cudaEventRecord(stopEvent,0);
         cudaEventSynchronize(stopEvent);
         cudaEventElapsedTime(&tempt, startEvent, stopEvent);
diff --git a/src/reference/CUDA/HermiteCUDA.cu b/src/reference/CUDA/HermiteCUDA.cu
index c94c97a..257d41f 100755
--- a/src/reference/CUDA/HermiteCUDA.cu
+++ b/src/reference/CUDA/HermiteCUDA.cu
@@ -7,7 +7,7 @@ which is the essence of the high accuracy of the current advection scheme.
 #define _HermiteCUDA_h
 
 __global__ void devicetodevicecopy(double *dphi, double *dpsix, double *dpsiy, double *mphi, double *mpsix, double *mpsiy,
-        unsigned int nx, unsigned int TileSize)
+        unsigned int nx, unsigned int ny, unsigned int TileSize)
 {
     unsigned int bx = blockIdx.x;
     unsigned int by = blockIdx.y;
@@ -18,6 +18,9 @@ __global__ void devicetodevicecopy(double *dphi, double *dpsix, double *dpsiy, d
     unsigned int index_x = bx * TileSize + tx;
     unsigned int index_y = by * TileSize + ty;
     
+    if(index_x >= nx || index_y >= ny)
+        return;
+    
     unsigned int indexToWrite = index_y * nx + index_x;
     
     mphi[indexToWrite] = dphi[indexToWrite];
-- 
2.43.0


From 73a5518d7ef84ee30e75664c84cd9e76e0716738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:53 +0000
Subject: [PATCH 27/29] fix: compute the norm of an integer vector without
 integer overflow

---
 src/cpu/vec3.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cpu/vec3.cc b/src/cpu/vec3.cc
index 7860840..02cbab8 100644
--- a/src/cpu/vec3.cc
+++ b/src/cpu/vec3.cc
@@ -70,7 +70,9 @@ const int GALS::CPU::Vec3<T>::size() const
 template <typename T>
 const double GALS::CPU::Vec3<T>::mag() const
 {
-  return sqrt(m_data[0] * m_data[0] + m_data[1] * m_data[1] + m_data[2] * m_data[2]);
+  const double x = m_data[0], y = m_data[1], z = m_data[2];
+
+  return sqrt(x * x + y * y + z * z);
 }
 
 template <typename T>
-- 
2.43.0


From d022f2ecd394931027e236b500aa35a15b23aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:55 +0000
Subject: [PATCH 28/29] fix: write every entry of the analytical velocity
 gradient

---
 src/cpu/analytical-fields/velocity.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index cadcf47..27a01a1 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -87,10 +87,9 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
             for (int k = 0; k < num_cells[2]; ++k) {
               for (int cmpt = 0; cmpt < T_GRID::dim; ++cmpt) {
                 for (int derv = 0; derv < T_GRID::dim; ++derv) {
-                  if (cmpt == 0 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
+                  velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
                   if (cmpt == 0 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = -coeff;
                   if (cmpt == 1 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = coeff;
-                  if (cmpt == 1 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
                 }
               }
             }
-- 
2.43.0


From 9dab609e29c8019231174b7db6c7d1caa0e098c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:15 +0000
Subject: [PATCH 29/29] fix: creating a directory where a file of that name
 lies is not a success

---
 src/cpu/file-utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/file-utils.cc b/src/cpu/file-utils.cc
index 0ae2b87..60511d3 100644
--- a/src/cpu/file-utils.cc
+++ b/src/cpu/file-utils.cc
@@ -70,7 +70,7 @@ bool GALS::UTILITIES::FileUtils::createDirectory(const std::string dir_name) con
     return fs::create_directories(dir_path);
   }
 
-  return true;
+  return dir_path.is_directory();
 }
 
 bool GALS::UTILITIES::FileUtils::removeDirectory(const std::string dir_name) const
-- 
2.43.0

