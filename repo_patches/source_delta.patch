From a3ec3242e80cc0b0b3f7341ad5461adf45989af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 01/21] fix: read hexadecimal integers of input files as
 documented

INIReader::GetInteger is documented to accept "0x4D2", but always parsed in
base 10, so that the value was silently read as 0.
---
 vendor/inih/src/INIReader.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/vendor/inih/src/INIReader.cpp b/vendor/inih/src/INIReader.cpp
index a6d51c6..4d51d84 100644
--- a/vendor/inih/src/INIReader.cpp
+++ b/vendor/inih/src/INIReader.cpp
@@ -7,6 +7,7 @@
 
 #include <algorithm>  // for transform
 #include <cctype>     // for tolower
+#include <cstddef>    // for size_t
 #include <stdexcept>
 #include <limits>
 #include <string>
@@ -14,6 +15,19 @@
 #include <inih/ini.h>      // for ini_parse
 #include <inih/INIReader.hpp>
 
+namespace {
+
+// Base of the integer written in str: 16 after a "0x" prefix, 10 otherwise
+int IntegerBase(const std::string& str)
+{
+    const std::size_t digits = str.find_first_not_of("+-");
+    const bool is_hex = digits != std::string::npos && str[digits] == '0'
+                        && digits + 1 < str.size() && std::tolower(static_cast<unsigned char>(str[digits + 1])) == 'x';
+    return is_hex ? 16 : 10;
+}
+
+}
+
 INIReader::INIReader() = default;
 
 INIReader::INIReader(const std::string& filename)
@@ -39,7 +53,8 @@ std::string INIReader::Get(const std::string& section, const std::string& name,
 unsigned INIReader::GetInteger(const std::string& section, const std::string& name, unsigned default_value) const
 {
     const std::string valstr = Get(section, name, "");
-    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr);
+    // This parses "1234" (decimal) and also "0x4D2" (hex)
+    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
     if (result > std::numeric_limits<unsigned>::max())
     {
         throw std::out_of_range("stou");
@@ -51,35 +66,35 @@ unsigned long INIReader::GetInteger(const std::string& section, const std::strin
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoul(valstr);
+    return valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
 }
 
 unsigned long long INIReader::GetInteger(const std::string& section, const std::string& name, unsigned long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoull(valstr);
+    return valstr.empty() ? default_value : std::stoull(valstr, nullptr, IntegerBase(valstr));
 }
 
 int INIReader::GetInteger(const std::string& section, const std::string& name, int default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoi(valstr);
+    return valstr.empty() ? default_value : std::stoi(valstr, nullptr, IntegerBase(valstr));
 }
 
 long INIReader::GetInteger(const std::string& section, const std::string& name, long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stol(valstr);
+    return valstr.empty() ? default_value : std::stol(valstr, nullptr, IntegerBase(valstr));
 }
 
 long long INIReader::GetInteger(const std::string& section, const std::string& name, long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoll(valstr);
+    return valstr.empty() ? default_value : std::stoll(valstr, nullptr, IntegerBase(valstr));
 }
 
 float INIReader::GetReal(const std::string& section, const std::string& name, float default_value) const
-- 
2.43.0


From 4957e5eaafdbae8a6b0f15460ba26fcd19424ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 02/21] fix: refuse negative text for unsigned integer settings

std::stoul and std::stoull wrap negative numbers around, so that -1 silently
became the largest value of the type.
---
 vendor/inih/src/INIReader.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/vendor/inih/src/INIReader.cpp b/vendor/inih/src/INIReader.cpp
index 4d51d84..7c2e65a 100644
--- a/vendor/inih/src/INIReader.cpp
+++ b/vendor/inih/src/INIReader.cpp
@@ -26,6 +26,16 @@ int IntegerBase(const std::string& str)
     return is_hex ? 16 : 10;
 }
 
+// std::stoul and std::stoull accept a minus sign and wrap the value around
+const std::string& RejectNegative(const std::string& str)
+{
+    if (str[0] == '-')
+    {
+        throw std::out_of_range("negative value for an unsigned integer");
+    }
+    return str;
+}
+
 }
 
 INIReader::INIReader() = default;
@@ -54,7 +64,7 @@ unsigned INIReader::GetInteger(const std::string& section, const std::string& na
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
+    unsigned long result = valstr.empty() ? default_value : std::stoul(RejectNegative(valstr), nullptr, IntegerBase(valstr));
     if (result > std::numeric_limits<unsigned>::max())
     {
         throw std::out_of_range("stou");
@@ -66,14 +76,14 @@ unsigned long INIReader::GetInteger(const std::string& section, const std::strin
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
+    return valstr.empty() ? default_value : std::stoul(RejectNegative(valstr), nullptr, IntegerBase(valstr));
 }
 
 unsigned long long INIReader::GetInteger(const std::string& section, const std::string& name, unsigned long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoull(valstr, nullptr, IntegerBase(valstr));
+    return valstr.empty() ? default_value : std::stoull(RejectNegative(valstr), nullptr, IntegerBase(valstr));
 }
 
 int INIReader::GetInteger(const std::string& section, const std::string& name, int default_value) const
-- 
2.43.0


From c277be8a9a92963b04ad3762a6ab1c368b84779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 03/21] fix: apply the boundary conditions in the order of the
 priority list

The priority list was stored as the position of each face and then used as a
list of faces, so that any list that is not its own inverse was applied in
another order. Lists that name a face twice or have trailing words were
accepted.
---
 src/boundary_distribute.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index 48de4d9..2448bc6 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -45,29 +45,33 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
     int counter = 0;
     for (int i = 0; i < nfaces; ++i) {
         if (tmp_arr[i] == "X_left") {
-            bc_order[0] = i;
+            bc_order[i] = 0;
             ++counter;
         } else if (tmp_arr[i] == "X_right") {
-            bc_order[1] = i;
+            bc_order[i] = 1;
             ++counter;
         } else if (tmp_arr[i] == "Y_left" && ndim >= 2) {
-            bc_order[2] = i;
+            bc_order[i] = 2;
             ++counter;
         } else if (tmp_arr[i] == "Y_right" && ndim >= 2) {
-            bc_order[3] = i;
+            bc_order[i] = 3;
             ++counter;
         } else if (tmp_arr[i] == "Z_left" && ndim == 3) {
-            bc_order[4] = i;
+            bc_order[i] = 4;
             ++counter;
         } else if (tmp_arr[i] == "Z_right" && ndim == 3) {
-            bc_order[5] = i;
+            bc_order[i] = 5;
             ++counter;
         }
     }
-    std::ranges::reverse(bc_order);
-    if (counter != nfaces) {
+
+    std::array<int, nfaces> all_faces;
+    std::iota(all_faces.begin(), all_faces.end(), 0);
+    std::string extra_face;
+    if (counter != nfaces || ssin >> extra_face || !std::ranges::is_permutation(bc_order, all_faces)) {
         throw std::runtime_error("boundary priority not fully defined !");
     }
+    std::ranges::reverse(bc_order); // the last condition applied has the highest priority
 }
 
 } // namespace
-- 
2.43.0


From 7e9abdba399d249710962fe4d958297ca8731aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 04/21] fix: stop on NaN internal energy in any cell

Minimum reductions drop NaN values (a comparison with NaN is false), so that a
NaN cell was hidden by the valid ones and the run went on.
---
 src/analysis/internal_energy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/analysis/internal_energy.cpp b/src/analysis/internal_energy.cpp
index b6eec69..cd05732 100644
--- a/src/analysis/internal_energy.cpp
+++ b/src/analysis/internal_energy.cpp
@@ -33,7 +33,11 @@ auto minimum_internal_energy(Range const& range, Grid const& grid, KV_cdouble_3d
                 }
                 cons.E = E(i, j, k);
 
-                double const cell_evol = compute_evol(cons);
+                double cell_evol = compute_evol(cons);
+                if (Kokkos::isnan(cell_evol)) {
+                    // minimum reductions may drop NaN values
+                    cell_evol = -Kokkos::Experimental::infinity_v<double>;
+                }
 
                 local_evol = Kokkos::min(local_evol, cell_evol);
             },
-- 
2.43.0


From 5cf8b8b4d753fb4eac70b48e50436ff778379861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 05/21] fix: refuse a run that starts after its end time

The first step had a negative length and made the run go back in time.
---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index b20af58..e8ec4b2 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -264,6 +264,10 @@ void main(int argc, char** argv)
         initialization->execute(grid.range.no_ghosts(), grid, rho(device), u(device), P(device), fx(device));
     }
 
+    if (t > param.t_end) {
+        throw std::runtime_error("Error: the run starts after its end time");
+    }
+
     // Create the operators of the main time loop
     std::array<std::unique_ptr<IBoundaryCondition<Gravity>>, nfaces> bcs_array;
     for (int idim = 0; idim < ndim; ++idim) {
-- 
2.43.0


From 8809d6cae885945bf16604c6ede2757600315026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 06/21] fix: do not count an output scheduled after the end
 time as done

When the last step would also have reached a scheduled output beyond t_end, the
step was shortened to t_end but the schedule counter was advanced and saved: a
restart with a later end time skipped that output.
---
 src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index e8ec4b2..061a2b8 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -16,6 +16,7 @@
 #include <filesystem>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
@@ -368,7 +369,8 @@ void main(int argc, char** argv)
         }
         if (param.time_output_frequency > 0) {
             double const next_output = param.time_first_output + ((time_output_id + 1) * param.time_output_frequency);
-            if ((t + dt) >= next_output) {
+            double const rounding = 4 * std::numeric_limits<double>::epsilon() * std::abs(next_output);
+            if ((next_output - rounding) <= param.t_end && (t + dt) >= next_output) {
                 dt = next_output - t;
                 if (dt <= 0) {
                     throw std::runtime_error("Error: the time step is negative");
-- 
2.43.0


From 022a51e0616f05f056f113eedba38d37fe0c3082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 07/21] fix: accept the documented border names in the priority
 list

The keys of the borders are BC_X0_left, BC_X1_right... and the example inputs
list the priority as X0_right X0_left X1_left X1_right, which was refused: only
the names X_left, Y_right... were known.
---
 src/boundary_distribute.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index 2448bc6..508bcf6 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -44,22 +44,22 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
 
     int counter = 0;
     for (int i = 0; i < nfaces; ++i) {
-        if (tmp_arr[i] == "X_left") {
+        if (tmp_arr[i] == "X0_left" || tmp_arr[i] == "X_left") {
             bc_order[i] = 0;
             ++counter;
-        } else if (tmp_arr[i] == "X_right") {
+        } else if (tmp_arr[i] == "X0_right" || tmp_arr[i] == "X_right") {
             bc_order[i] = 1;
             ++counter;
-        } else if (tmp_arr[i] == "Y_left" && ndim >= 2) {
+        } else if ((tmp_arr[i] == "X1_left" || tmp_arr[i] == "Y_left") && ndim >= 2) {
             bc_order[i] = 2;
             ++counter;
-        } else if (tmp_arr[i] == "Y_right" && ndim >= 2) {
+        } else if ((tmp_arr[i] == "X1_right" || tmp_arr[i] == "Y_right") && ndim >= 2) {
             bc_order[i] = 3;
             ++counter;
-        } else if (tmp_arr[i] == "Z_left" && ndim == 3) {
+        } else if ((tmp_arr[i] == "X2_left" || tmp_arr[i] == "Z_left") && ndim == 3) {
             bc_order[i] = 4;
             ++counter;
-        } else if (tmp_arr[i] == "Z_right" && ndim == 3) {
+        } else if ((tmp_arr[i] == "X2_right" || tmp_arr[i] == "Z_right") && ndim == 3) {
             bc_order[i] = 5;
             ++counter;
         }
-- 
2.43.0


From 38d685d80a3f71a98470f137ba8ca4e1080d3b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 08/21] fix: refuse a grid without cells

A missing grid size (default 0) was accepted: the run went on with empty fields.
---
 src/mesh/grid.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mesh/grid.cpp b/src/mesh/grid.cpp
index d98fad8..a419c55 100644
--- a/src/mesh/grid.cpp
+++ b/src/mesh/grid.cpp
@@ -12,6 +12,7 @@
 #include <array>
 #include <cassert>
 #include <memory>
+#include <stdexcept>
 #include <string>
 
 #include <Kokkos_Core.hpp>
@@ -53,6 +54,12 @@ Grid::Grid(std::array<int, 3> const& nx_glob_ng, std::array<int, 3> const& mpi_d
     , mpi_rank_cart {0, 0, 0}
     , mpi_dims_cart(mpi_dims_cart)
 {
+    for (int idim = 0; idim < 3; ++idim) {
+        if (nx_glob_ng[idim] < 1) {
+            throw std::runtime_error("The number of cells must be positive in every direction");
+        }
+    }
+
     for (int idim = 0; idim < ndim; ++idim) {
         Nghost[idim] = Ng;
     }
-- 
2.43.0


From 1ff63818ba2e4d8183922f7efb1c99eede93efc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 09/21] fix: refuse less than two layers of ghost cells

The slopes of the first ghost layer read the cells of the second one, outside of
the arrays with Nghost = 1.
---
 src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 061a2b8..5bd7819 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -137,6 +137,9 @@ void main(int argc, char** argv)
     PDI_init(conf);
 
     Param const param(reader);
+    if (param.Ng < 2) {
+        throw std::runtime_error("Error: the scheme needs at least two layers of ghost cells");
+    }
     ParamSetup const param_setup(reader);
     Grid grid(param.Nx_glob_ng, param.mpi_dims_cart, param.Ng);
 
-- 
2.43.0


From f87545cbc2bb67971e45f3bbddfc38406b909455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 10/21] fix: refuse a cfl number that is not positive

A zero cfl number gave an endless run, a negative one went back in time.
---
 src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 5bd7819..fc56f1e 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -140,6 +140,9 @@ void main(int argc, char** argv)
     if (param.Ng < 2) {
         throw std::runtime_error("Error: the scheme needs at least two layers of ghost cells");
     }
+    if (!(param.cfl > 0)) {
+        throw std::runtime_error("Error: the cfl number must be positive");
+    }
     ParamSetup const param_setup(reader);
     Grid grid(param.Nx_glob_ng, param.mpi_dims_cart, param.Ng);
 
-- 
2.43.0


From 13972383ea707a7012d1d33ab3edcbc508525453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 11/21] fix: refuse a regular grid with inverted ends

The cells had negative widths and the run went back in time.
---
 src/mesh/grid_type.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mesh/grid_type.cpp b/src/mesh/grid_type.cpp
index 3db6038..9f6bd57 100644
--- a/src/mesh/grid_type.cpp
+++ b/src/mesh/grid_type.cpp
@@ -7,6 +7,7 @@
 //!
 
 #include <array>
+#include <stdexcept>
 
 #include <kokkos_shortcut.hpp>
 #include <param.hpp>
@@ -43,7 +44,14 @@ auto IGridType::operator=(IGridType&& /*rhs*/) noexcept -> IGridType& = default;
 
 Regular::Regular(std::array<double, 3> min, std::array<double, 3> max) : m_min(min), m_max(max) {}
 
-Regular::Regular(Param const& param) : m_min {param.x0min, param.x1min, param.x2min}, m_max {param.x0max, param.x1max, param.x2max} {}
+Regular::Regular(Param const& param) : m_min {param.x0min, param.x1min, param.x2min}, m_max {param.x0max, param.x1max, param.x2max}
+{
+    for (int idim = 0; idim < 3; ++idim) {
+        if (!(m_min[idim] < m_max[idim])) {
+            throw std::runtime_error("The lower end of the grid must be below its upper end in every direction");
+        }
+    }
+}
 
 void Regular::execute(
         std::array<int, 3> Nghost,
-- 
2.43.0


From b534f5f1928b41f2fa7e4fd7e2fcaed3b57de089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 12/21] fix: area of the azimuthal faces of a spherical grid

---
 src/mesh/geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/geometry.cpp b/src/mesh/geometry.cpp
index 8685b8f..6f7515e 100644
--- a/src/mesh/geometry.cpp
+++ b/src/mesh/geometry.cpp
@@ -112,7 +112,7 @@ void Spherical::execute(
                     double const dcos = Kokkos::cos(x1(j)) - Kokkos::cos(x1(j + 1));
                     ds(i, j, k, 0) = x0(i) * x0(i) * dcos * dx2(k); //r = cst
                     ds(i, j, k, 1) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * Kokkos::sin(x1(j)) * dx2(k); // theta = cst
-                    ds(i, j, k, 2) = x0(i) * dx0(i) * dx1(j); //phi = cst
+                    ds(i, j, k, 2) = (1. / 2) * (x0(i) + x0(i + 1)) * dx0(i) * dx1(j); //phi = cst
                 });
 
         Kokkos::parallel_for(
-- 
2.43.0


From e2a18c165dc8dcc3113915f536b39eaef460ba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 13/21] fix: start the temperature iteration of the radiating
 gas from the smaller upper bound

Newton's method divides the temperature by 4/3 per iteration far above the
root: from the larger bound, 100 iterations do not reach the temperature of a
strongly radiation-dominated gas and a wrong pressure was returned.
---
 src/thermodynamics/rad_gas.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thermodynamics/rad_gas.hpp b/src/thermodynamics/rad_gas.hpp
index 3e27619..be48ab0 100644
--- a/src/thermodynamics/rad_gas.hpp
+++ b/src/thermodynamics/rad_gas.hpp
@@ -77,7 +77,7 @@ public:
         double const C1 = rho * units::kb / (m_mmw * units::mp);
         double const Tg = P / C1;
         double const Tr = Kokkos::pow(3 * P / units::ar, 1. / 4);
-        double const T0 = Tr > Tg ? Tr : Tg;
+        double const T0 = Tr < Tg ? Tr : Tg; // both are upper bounds of the root
         double T = T0;
         int itr = 0;
         double delta_T = 0;
@@ -107,7 +107,7 @@ public:
         double const C1 = rho * units::kb / (m_mmw * units::mp * m_gamma_m1);
         double const Tg = evol / C1;
         double const Tr = Kokkos::pow(evol / units::ar, 1. / 4);
-        double const T0 = Tr > Tg ? Tr : Tg;
+        double const T0 = Tr < Tg ? Tr : Tg; // both are upper bounds of the root
         double T = T0;
         int itr = 0;
         double delta_T = 0;
-- 
2.43.0


From 031e84031cf5c9308fdf406f7d0b7d2ecfbcf6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 14/21] fix: pressure correction mixed velocities and areas of
 different directions

The divergence of the pressure correction looped over all pairs of
directions: velocity components across the faces of one direction were
multiplied by the areas of the faces of another one. In 2D and 3D the
corrected energy counted radial flows two or three times and depended on
the orientation of the flow.
---
 src/hydro/pressure_fix.hpp | 126 ++++++++++++++++++-------------------
 1 file changed, 62 insertions(+), 64 deletions(-)

diff --git a/src/hydro/pressure_fix.hpp b/src/hydro/pressure_fix.hpp
index dd628a7..3363edf 100644
--- a/src/hydro/pressure_fix.hpp
+++ b/src/hydro/pressure_fix.hpp
@@ -82,90 +82,88 @@ void pressure_fix(
                         auto const [i_m, j_m, k_m] = lindex(idim, i, j, k); // i - 1
                         auto const [i_p, j_p, k_p] = rindex(idim, i, j, k); // i + 1
 
-                        for (int ipos = 0; ipos < ndim; ++ipos) {
-                            EulerCons var_L; // Left, front, down (i,j,k)
-                            EulerCons var_R; // Right, back, top (i,j,k)
+                        EulerCons var_L; // Left, front, down (i,j,k)
+                        EulerCons var_R; // Right, back, top (i,j,k)
 
-                            var_L.rho = rho_rec(i, j, k, 0, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                var_L.rhou[idr] = rhou_rec(i, j, k, 0, idim, idr);
-                            }
-                            var_L.E = E_rec(i, j, k, 0, idim);
+                        var_L.rho = rho_rec(i, j, k, 0, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            var_L.rhou[idr] = rhou_rec(i, j, k, 0, idim, idr);
+                        }
+                        var_L.E = E_rec(i, j, k, 0, idim);
 
-                            var_R.rho = rho_rec(i, j, k, 1, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                var_R.rhou[idr] = rhou_rec(i, j, k, 1, idim, idr);
-                            }
-                            var_R.E = E_rec(i, j, k, 1, idim);
+                        var_R.rho = rho_rec(i, j, k, 1, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            var_R.rhou[idr] = rhou_rec(i, j, k, 1, idim, idr);
+                        }
+                        var_R.E = E_rec(i, j, k, 1, idim);
 
-                            EulerPrim const primL = to_prim(var_L, eos);
-                            EulerPrim const primR = to_prim(var_R, eos);
+                        EulerPrim const primL = to_prim(var_L, eos);
+                        EulerPrim const primR = to_prim(var_R, eos);
 
-                            EulerCons minus_oneR; // Right, back, top (i,j,k) - 1
-                            EulerCons plus_oneL; // Left, front, down (i,j,k) + 1
+                        EulerCons minus_oneR; // Right, back, top (i,j,k) - 1
+                        EulerCons plus_oneL; // Left, front, down (i,j,k) + 1
 
-                            minus_oneR.rho = rho_rec(i_m, j_m, k_m, 1, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                minus_oneR.rhou[idr] = rhou_rec(i_m, j_m, k_m, 1, idim, idr);
-                            }
-                            minus_oneR.E = E_rec(i_m, j_m, k_m, 1, idim);
+                        minus_oneR.rho = rho_rec(i_m, j_m, k_m, 1, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            minus_oneR.rhou[idr] = rhou_rec(i_m, j_m, k_m, 1, idim, idr);
+                        }
+                        minus_oneR.E = E_rec(i_m, j_m, k_m, 1, idim);
 
-                            plus_oneL.rho = rho_rec(i_p, j_p, k_p, 0, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                plus_oneL.rhou[idr] = rhou_rec(i_p, j_p, k_p, 0, idim, idr);
-                            }
-                            plus_oneL.E = E_rec(i_p, j_p, k_p, 0, idim);
+                        plus_oneL.rho = rho_rec(i_p, j_p, k_p, 0, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            plus_oneL.rhou[idr] = rhou_rec(i_p, j_p, k_p, 0, idim, idr);
+                        }
+                        plus_oneL.E = E_rec(i_p, j_p, k_p, 0, idim);
 
-                            EulerPrim const prim_mR = to_prim(minus_oneR, eos);
-                            EulerPrim const prim_pL = to_prim(plus_oneL, eos);
+                        EulerPrim const prim_mR = to_prim(minus_oneR, eos);
+                        EulerPrim const prim_pL = to_prim(plus_oneL, eos);
 
-                            EulerCons cons_p; // (i,j,k) + 1
-                            EulerCons cons_m; // (i,j,k) - 1
+                        EulerCons cons_p; // (i,j,k) + 1
+                        EulerCons cons_m; // (i,j,k) - 1
 
-                            cons_p.rho = rho(i_p, j_p, k_p);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                cons_p.rhou[idr] = rhou(i_p, j_p, k_p, idr);
-                            }
-                            cons_p.E = E(i_p, j_p, k_p);
+                        cons_p.rho = rho(i_p, j_p, k_p);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            cons_p.rhou[idr] = rhou(i_p, j_p, k_p, idr);
+                        }
+                        cons_p.E = E(i_p, j_p, k_p);
 
-                            cons_m.rho = rho(i_m, j_m, k_m);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                cons_m.rhou[idr] = rhou(i_m, j_m, k_m, idr);
-                            }
-                            cons_m.E = E(i_m, j_m, k_m);
+                        cons_m.rho = rho(i_m, j_m, k_m);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            cons_m.rhou[idr] = rhou(i_m, j_m, k_m, idr);
+                        }
+                        cons_m.E = E(i_m, j_m, k_m);
 
-                            //--------------------------------------------//
+                        //--------------------------------------------//
 
-                            double const us = (prim_mR.u[ipos] + primL.u[ipos]) / 2; // Not the values from the Riemann solver
-                            double const us_p = (primR.u[ipos] + prim_pL.u[ipos]) / 2;
+                        double const us = (prim_mR.u[idim] + primL.u[idim]) / 2; // Not the values from the Riemann solver
+                        double const us_p = (primR.u[idim] + prim_pL.u[idim]) / 2;
 
-                            divU += ((us_p * ds(i_p, j_p, k_p, ipos)) - (us * ds(i, j, k, ipos))) / dv(i, j, k);
+                        divU += ((us_p * ds(i_p, j_p, k_p, idim)) - (us * ds(i, j, k, idim))) / dv(i, j, k);
 
-                            if (us_p > 0) {
-                                einR = E(i, j, k) - compute_ek(cons);
-                            } else {
-                                einR = E(i_p, j_p, k_p) - compute_ek(cons_p);
-                            }
+                        if (us_p > 0) {
+                            einR = E(i, j, k) - compute_ek(cons);
+                        } else {
+                            einR = E(i_p, j_p, k_p) - compute_ek(cons_p);
+                        }
 
-                            if (us < 0) {
-                                einL = E(i, j, k) - compute_ek(cons);
-                            } else {
-                                einL = E(i_m, j_m, k_m) - compute_ek(cons_m);
-                            }
+                        if (us < 0) {
+                            einL = E(i, j, k) - compute_ek(cons);
+                        } else {
+                            einL = E(i_m, j_m, k_m) - compute_ek(cons_m);
+                        }
 
-                            divUE += ((us_p * einR * ds(i_p, j_p, k_p, ipos)) - (us * einL * ds(i, j, k, ipos))) / dv(i, j, k);
+                        divUE += ((us_p * einR * ds(i_p, j_p, k_p, idim)) - (us * einL * ds(i, j, k, idim))) / dv(i, j, k);
 
-                            double const de_pf = dt * ((-prim.P * divU) - divUE);
+                        double const de_pf = dt * ((-prim.P * divU) - divUE);
 
-                            double sum = 0;
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                sum += cons.rhou[idr] * cons.rhou[idr] / cons.rho;
-                            }
+                        double sum = 0;
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            sum += cons.rhou[idr] * cons.rhou[idr] / cons.rho;
+                        }
 
-                            double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
+                        double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
 
-                            E_new(i, j, k) = evol + de_tot + (1. / 2 * sum);
-                        }
+                        E_new(i, j, k) = evol + de_tot + (1. / 2 * sum);
                     }
                 }
             });
-- 
2.43.0


From 21678863724ce1ac998c639bc6bf33007314e2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 15/21] fix: centrifugal source of the polar momentum on a 3D
 spherical grid

rho u_phi^2 cot(theta) / r integrates over a cell to the mean of
rho u_phi^2 times the difference of the polar face areas, like the
pressure term. It was multiplied by cot(theta) once more and halved.
---
 src/hydro/extrapolation_reconstruction.hpp | 4 ----
 src/hydro/godunov_scheme.hpp               | 2 --
 src/hydro/source_terms.hpp                 | 5 ++---
 3 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/hydro/extrapolation_reconstruction.hpp b/src/hydro/extrapolation_reconstruction.hpp
index 5de8662..665e8ac 100644
--- a/src/hydro/extrapolation_reconstruction.hpp
+++ b/src/hydro/extrapolation_reconstruction.hpp
@@ -253,8 +253,6 @@ public:
                                         // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
                                         rhou_rec(i, j, k, 0, ipos, idim) += source_grad_u_th(
                                                 dtodv,
-                                                x1(j),
-                                                x1(j + 1),
                                                 primL.rho,
                                                 primR.rho,
                                                 primL.u[2],
@@ -263,8 +261,6 @@ public:
                                                 ds(i_p, j_p, k_p, idim));
                                         rhou_rec(i, j, k, 1, ipos, idim) += source_grad_u_th(
                                                 dtodv,
-                                                x1(j),
-                                                x1(j + 1),
                                                 primL.rho,
                                                 primR.rho,
                                                 primL.u[2],
diff --git a/src/hydro/godunov_scheme.hpp b/src/hydro/godunov_scheme.hpp
index 881ba76..f3986e2 100644
--- a/src/hydro/godunov_scheme.hpp
+++ b/src/hydro/godunov_scheme.hpp
@@ -229,8 +229,6 @@ public:
                                     // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
                                     rhou_new(i, j, k, idim) += source_grad_u_th(
                                             dtodv,
-                                            x1(j),
-                                            x1(j + 1),
                                             primL.rho,
                                             primR.rho,
                                             primL.u[2],
diff --git a/src/hydro/source_terms.hpp b/src/hydro/source_terms.hpp
index 1f90d87..39211af 100644
--- a/src/hydro/source_terms.hpp
+++ b/src/hydro/source_terms.hpp
@@ -50,10 +50,9 @@ auto source_grad_u_idir_r(
 
 // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
 KOKKOS_FORCEINLINE_FUNCTION
-auto source_grad_u_th(double dtodv, double x1, double x1_p, double rhoL, double rhoR, double uL_phi, double uR_phi, double dS, double dS_p) -> double
+auto source_grad_u_th(double dtodv, double rhoL, double rhoR, double uL_phi, double uR_phi, double dS, double dS_p) -> double
 {
-    return dtodv * ((rhoL * uL_phi * uL_phi) + (rhoR * uR_phi * uR_phi)) / 2 * (Kokkos::cos((x1 + x1_p) / 2) / Kokkos::sin((x1 + x1_p) / 2))
-           * (dS_p - dS) / 2;
+    return dtodv * ((rhoL * uL_phi * uL_phi) + (rhoR * uR_phi * uR_phi)) / 2 * (dS_p - dS);
 }
 
 // Velocity term (e_{phi}): cot(th) * rho * u_{phi} * u_{th} / r
-- 
2.43.0


From 7fe27cac9454b3e4d067ef7b75a856f7ed6bddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:56 +0000
Subject: [PATCH 16/21] fix: refuse nickel heating without a passive scalar

---
 src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index fc56f1e..7f38c7e 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -143,6 +143,9 @@ void main(int argc, char** argv)
     if (!(param.cfl > 0)) {
         throw std::runtime_error("Error: the cfl number must be positive");
     }
+    if (param.user_step == "Heat_nickel" && param.nfx < 1) {
+        throw std::runtime_error("Error: nickel heating needs at least one passive scalar");
+    }
     ParamSetup const param_setup(reader);
     Grid grid(param.Nx_glob_ng, param.mpi_dims_cart, param.Ng);
 
-- 
2.43.0


From da85bb9dbcef0c8899e0237a6606d8cae58e447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 17/21] fix: one output for a scheduled time and an end equal
 up to rounding

A scheduled output time one rounding error below t_end was followed by a step of
that length and a second output for the same time.
---
 src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 7f38c7e..a461b0d 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -389,7 +389,8 @@ void main(int argc, char** argv)
             }
         }
 
-        if ((t + dt) >= param.t_end) {
+        double const t_end_rounding = 4 * std::numeric_limits<double>::epsilon() * std::abs(param.t_end);
+        if ((t + dt) >= (param.t_end - t_end_rounding)) {
             dt = param.t_end - t;
             make_output = true;
             should_exit = true;
-- 
2.43.0


From b20cf6293c8c8135ae6895e4fc2fd21f21e9b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:19 +0000
Subject: [PATCH 18/21] fix: refuse a restart file whose cells do not match the
 grid

The coordinates hold ghost cells: a file with as many nodes but other numbers of
cells and ghost cells was accepted and a corner of its fields was read.
---
 src/io/io.cpp | 23 ++++++++---------------
 src/io/io.hpp |  1 +
 src/main.cpp  |  1 +
 3 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/io/io.cpp b/src/io/io.cpp
index 44272f1..871262b 100644
--- a/src/io/io.cpp
+++ b/src/io/io.cpp
@@ -330,6 +330,7 @@ void read_pdi(
         int& time_output_id,
         int& iter,
         double& t,
+        Grid const& grid,
         KDV_double_3d const& rho,
         KDV_double_4d const& u,
         KDV_double_3d const& P,
@@ -341,21 +342,13 @@ void read_pdi(
     assert(span_is_contiguous(rho, u, P, fx));
 
     RaiiH5Hid const file_id(::H5Fopen(restart_file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT), ::H5Fclose);
-    // check_extent_dset(file_id, "/rho", std::array {rho.extent(2), rho.extent(1), rho.extent(0)});
-    // check_extent_dset(file_id, "/u_x0", std::array {u.extent(2), u.extent(1), u.extent(0)});
-    // if (ndim > 1)
-    // {
-    //     check_extent_dset(file_id, "/u_x1", std::array {u.extent(2), u.extent(1), u.extent(0)});
-    // }
-    // if (ndim > 2)
-    // {
-    //     check_extent_dset(file_id, "/u_x2", std::array {u.extent(2), u.extent(1), u.extent(0)});
-    // }
-    // check_extent_dset(file_id, "/P", std::array {P.extent(2), P.extent(1), P.extent(0)});
-    // if (fx.extent(3) > 0)
-    // {
-    //     check_extent_dset(file_id, "/fx", std::array {fx.extent(3), fx.extent(2), fx.extent(1), fx.extent(0)});
-    // }
+    check_extent_dset(
+            file_id,
+            "/rho",
+            std::array {
+                    int_cast<std::size_t>(grid.Nx_glob_ng[2]),
+                    int_cast<std::size_t>(grid.Nx_glob_ng[1]),
+                    int_cast<std::size_t>(grid.Nx_glob_ng[0])});
     check_extent_dset(file_id, "/x0", std::array {x0_glob.extent(0)});
     check_extent_dset(file_id, "/x1", std::array {x1_glob.extent(0)});
     check_extent_dset(file_id, "/x2", std::array {x2_glob.extent(0)});
diff --git a/src/io/io.hpp b/src/io/io.hpp
index 93e2161..f6e2610 100644
--- a/src/io/io.hpp
+++ b/src/io/io.hpp
@@ -52,6 +52,7 @@ void read_pdi(
         int& time_output_id,
         int& iter,
         double& t,
+        Grid const& grid,
         KDV_double_3d const& rho,
         KDV_double_4d const& u,
         KDV_double_3d const& P,
diff --git a/src/main.cpp b/src/main.cpp
index a461b0d..fcdd611 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -239,6 +239,7 @@ void main(int argc, char** argv)
                 time_output_id,
                 iter,
                 t,
+                grid,
                 rho,
                 u,
                 P,
-- 
2.43.0


From 99271a895ba744adb89468a2337a444b12553f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:30 +0000
Subject: [PATCH 19/21] fix: sedov3d deposits the energy in the middle of the
 whole domain

---
 src/setups/sedov3d/setup.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/setups/sedov3d/setup.hpp b/src/setups/sedov3d/setup.hpp
index 3c7a225..bf985b1 100644
--- a/src/setups/sedov3d/setup.hpp
+++ b/src/setups/sedov3d/setup.hpp
@@ -67,8 +67,9 @@ public:
         auto const& param_setup = m_param_setup;
         auto const r = grid.x0;
         auto const& dv = grid.dv;
-        int const ny_2 = grid.Nx_glob_ng[1] / 2;
-        int const nz_2 = grid.Nx_glob_ng[2] / 2;
+        // local indices of the middle of the whole domain
+        int const ny_2 = (grid.Nx_glob_ng[1] / 2) - range.Corner_min[1] + range.Nghost[1];
+        int const nz_2 = (grid.Nx_glob_ng[2] / 2) - range.Corner_min[2] + range.Nghost[2];
 
         if (geom == Geometry::Geom_cartesian) {
             throw std::runtime_error("No Sedov 3D in Cartesian implemented");
-- 
2.43.0


From 3c2c88315227bbc3162f442fb8e43099534a33fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:30 +0000
Subject: [PATCH 20/21] fix: rayleigh_taylor's scalar goes from fx1 to fx0

---
 src/setups/rayleigh_taylor/setup.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setups/rayleigh_taylor/setup.hpp b/src/setups/rayleigh_taylor/setup.hpp
index 03624b3..dc1b03b 100644
--- a/src/setups/rayleigh_taylor/setup.hpp
+++ b/src/setups/rayleigh_taylor/setup.hpp
@@ -85,7 +85,7 @@ public:
 
                     rho(i, j, k) = param_setup.rho1 + ((param_setup.rho0 - param_setup.rho1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
-                    fx(i, j, k, 0) = (param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width));
+                    fx(i, j, k, 0) = param_setup.fx1 + ((param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
                     u(i, j, k, 0) = param_setup.u;
                     u(i, j, k, 1) = param_setup.u;
-- 
2.43.0


From 647442a41a5f2fbd1ed5023f0c9050e46243a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:30 +0000
Subject: [PATCH 21/21] fix: sedov1d starts from the same state whatever the
 ghosts and the processes

---
 src/setups/sedov1d/setup.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/setups/sedov1d/setup.hpp b/src/setups/sedov1d/setup.hpp
index c96fcb3..8c27c17 100644
--- a/src/setups/sedov1d/setup.hpp
+++ b/src/setups/sedov1d/setup.hpp
@@ -7,6 +7,8 @@
 #include <cassert>
 #include <string>
 
+#include <mpi.h>
+
 #include <inih/INIReader.hpp>
 
 #include <Kokkos_Core.hpp>
@@ -65,6 +67,7 @@ public:
         assert(fx.extent_int(3) == 0);
 
         int const mpi_rank = grid.mpi_rank;
+        int const ng = grid.Nghost[0];
 
         double alpha = -1;
 
@@ -78,13 +81,16 @@ public:
 
         auto const& eos = m_eos;
         auto const& param_setup = m_param_setup;
-        auto const dv = grid.dv;
+
+        // volume of the first cell of the whole domain
+        double dv_beg = 0;
+        Kokkos::deep_copy(dv_beg, Kokkos::subview(grid.dv, ng, 0, 0));
+        MPI_Bcast(&dv_beg, 1, MPI_DOUBLE, 0, grid.comm_cart);
 
         Kokkos::parallel_for(
                 "Sedov_1D_init",
                 cell_mdrange(range),
                 KOKKOS_LAMBDA(int i, int j, int k) {
-                    double const dv_beg = dv(2, 0, 0);
                     rho(i, j, k) = param_setup.rho0;
 
                     for (int idim = 0; idim < ndim; ++idim) {
@@ -94,7 +100,7 @@ public:
                     double const T = eos.compute_temp_from_evol(rho(i, j, k), param_setup.E0 / dv_beg);
                     P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T);
 
-                    if (mpi_rank == 0 && i == 2) {
+                    if (mpi_rank == 0 && i == ng) {
                         double const T_perturb = eos.compute_temp_from_evol(rho(i, j, k), alpha * param_setup.E1 / dv_beg);
                         P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T_perturb);
                     }
-- 
2.43.0

