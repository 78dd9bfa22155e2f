From 0534afd3f3af2ef714fdfdbcfec4e797b0d6d27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:43 +0000
Subject: [PATCH 01/29] fix: derivative of the Swamee-Jain friction factor
 divides by log(10)*a

---
 src/Model/Balancelaw/Isothermaleulerequation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Model/Balancelaw/Isothermaleulerequation.cpp b/src/Model/Balancelaw/Isothermaleulerequation.cpp
index d1ec721..486223b 100644
--- a/src/Model/Balancelaw/Isothermaleulerequation.cpp
+++ b/src/Model/Balancelaw/Isothermaleulerequation.cpp
@@ -316,7 +316,7 @@ namespace Model::Balancelaw {
     double x = exp(log(Re) * 0.9);
     double a = roughness / (3.7 * diameter) + 5.74 / x;
     double aux = log10(a);
-    double daux_dRe = 1 / log(10) * a * (-5.74 / (x * x)) * 0.9 * x / Re;
+    double daux_dRe = 1 / (log(10) * a) * (-5.74 / (x * x)) * 0.9 * x / Re;
     double dlambda_dRe = -0.5 / (aux * aux * aux) * daux_dRe;
     return dlambda_dRe;
   }
-- 
2.43.0


From b34e782c154fe3a5b6304b7605e7f9131f2c23a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:11 +0000
Subject: [PATCH 02/29] fix: Newton solver reports success only if the residual
 is within tolerance

---
 src/Newtonsolver/Newtonsolver.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/Newtonsolver/Newtonsolver.cpp b/src/Newtonsolver/Newtonsolver.cpp
index 5831498..af37dc1 100644
--- a/src/Newtonsolver/Newtonsolver.cpp
+++ b/src/Newtonsolver/Newtonsolver.cpp
@@ -152,12 +152,9 @@ namespace Solver {
       ++solstruct.used_iterations;
       solstruct.residual = rootvalues.norm();
     }
-    if (solstruct.used_iterations == maximal_iterations
-        and solstruct.residual > tolerance) {
-      solstruct.success = false;
-    } else {
-      solstruct.success = true;
-    }
+    // A residual that is not a number is never within the tolerance.
+    solstruct.residual = rootvalues.norm();
+    solstruct.success = (solstruct.residual <= tolerance);
 
     return solstruct;
   }
-- 
2.43.0


From 2f0faafa33c36738a0d5ef840def6cdcb31a06cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:51 +0000
Subject: [PATCH 03/29] fix: report failed writes of result and schema files

---
 src/Auxillary/json_schema/schema_generation.cpp | 2 ++
 src/Grazer/commands.cpp                         | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index 789a9ff..3072156 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -86,8 +86,10 @@ namespace Aux::schema {
     for (auto const &[name, schema] : schemas) {
       path file = schema_dir / path(name + "_schema.json");
       std::ofstream ofs(file);
+      ofs.exceptions(std::ofstream::failbit | std::ofstream::badbit);
       ofs << schema.dump(
           /*indent=*/1, /*indent_char=*/'\t');
+      ofs.close();
     }
   }
 
diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index dd5fcbc..b51af84 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -138,7 +138,9 @@ int grazer::run(std::filesystem::path directory_path) {
         std::cout << std::filesystem::absolute(states_outputfile).string()
                   << std::endl;
         std::ofstream o(states_outputfile);
+        o.exceptions(std::ofstream::failbit | std::ofstream::badbit);
         o << states_output_json.dump(1, '\t');
+        o.close();
       } catch (std::exception &e) {
         std::ostringstream o;
         o << "Printing to files failed with error message:"
@@ -291,7 +293,9 @@ int grazer::run(std::filesystem::path directory_path) {
         std::filesystem::path control_outputfile
             = output_directory / "controls.json";
         std::ofstream o(control_outputfile);
+        o.exceptions(std::ofstream::failbit | std::ofstream::badbit);
         o << control_output_json.dump(1, '\t');
+        o.close();
 
       } catch (std::exception &e) {
         std::ostringstream o;
@@ -310,7 +314,9 @@ int grazer::run(std::filesystem::path directory_path) {
         std::filesystem::path states_outputfile
             = output_directory / "states.json";
         std::ofstream o(states_outputfile);
+        o.exceptions(std::ofstream::failbit | std::ofstream::badbit);
         o << states_output_json.dump(1, '\t');
+        o.close();
       } catch (std::exception &e) {
         std::ostringstream o;
         o << "Printing to state output file failed with error message:"
-- 
2.43.0


From d7e3acec6e78f33bbc474f996142ac459caae810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:51 +0000
Subject: [PATCH 04/29] fix: overwrite_json detects failed writes and reports
 them after rolling back

---
 src/Auxillary/aux_json/Aux_json.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index df956c4..772fa8d 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -121,6 +121,7 @@ namespace aux_json {
     try {
       // attempting the overwrite
       std::ofstream ofs(file_path, std::ofstream::trunc);
+      ofs.exceptions(std::ofstream::failbit | std::ofstream::badbit);
       ofs << new_json.dump(/*indent=*/1, /*indent_char=*/'\t');
       ofs.close();
     } catch (...) {
@@ -134,6 +135,7 @@ namespace aux_json {
           std::cout << "backup file is missing!" << std::endl;
         }
       }
+      throw;
     }
     // remove backup
     if (had_existed) {
-- 
2.43.0


From bb0eca303eac4020d4c879698b19f372e8a51233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:51 +0000
Subject: [PATCH 05/29] fix: overwrite_json does not destroy a backup left by
 an interrupted rewrite

---
 src/Auxillary/aux_json/Aux_json.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index 772fa8d..4106191 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -111,6 +111,12 @@ namespace aux_json {
     std::filesystem::path backup_path = file_path.parent_path() / "tmp_backup";
     if (std::filesystem::exists(file_path)) {
       had_existed = true;
+      if (std::filesystem::exists(backup_path)) {
+        gthrow(
+            {"The backup file ", backup_path.string(),
+             " of an earlier, interrupted rewrite is still present. It may "
+             "hold the only copy of its data, aborting!"});
+      }
       std::filesystem::rename(file_path, backup_path);
       if (not std::filesystem::exists(backup_path)) {
         throw std::filesystem::filesystem_error(
-- 
2.43.0


From 05d92db445ece39417a80c56a6cd19ce6c419043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:10 +0000
Subject: [PATCH 06/29] fix: sortedness check of interpolation points looked at
 the moved-from vector

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index ced377d..f9f805c 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -170,7 +170,7 @@ namespace Aux {
       interpolation_points(std::move(_interpolation_points)),
       inner_length(_inner_length) {
     if (not std::is_sorted(
-            _interpolation_points.begin(), _interpolation_points.end())) {
+            interpolation_points.begin(), interpolation_points.end())) {
       gthrow({"Interpolation points for InterpolatingVector were not sorted!"});
     }
   }
-- 
2.43.0


From 9a2e750a8afae6a803e2e9b3d752ca69b96ad08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:10 +0000
Subject: [PATCH 07/29] fix: throw the error about a malformed property
 definition

---
 src/Auxillary/json_schema/make_schema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxillary/json_schema/make_schema.cpp b/src/Auxillary/json_schema/make_schema.cpp
index 5b69c18..a37eb66 100644
--- a/src/Auxillary/json_schema/make_schema.cpp
+++ b/src/Auxillary/json_schema/make_schema.cpp
@@ -201,7 +201,7 @@ namespace Aux::schema {
         std::ostringstream o;
         o << "Property Definition is not a JSON Object!\n";
         o << "Dump of Properties:\n\n" << properties;
-        std::runtime_error(o.str());
+        throw std::runtime_error(o.str());
       }
       if (not definition.contains("type")) {
         std::ostringstream o;
-- 
2.43.0


From 997adc40654f390c839d170fa0aab5ee8a2b4265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:06 +0000
Subject: [PATCH 08/29] fix: cost and penalty of the final solution are
 computed for the final solution

---
 src/IpoptWrapper/Wrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/IpoptWrapper/Wrapper.cpp b/src/IpoptWrapper/Wrapper.cpp
index f24fec4..aed83dc 100644
--- a/src/IpoptWrapper/Wrapper.cpp
+++ b/src/IpoptWrapper/Wrapper.cpp
@@ -171,6 +171,8 @@ namespace Optimization {
     Eigen::Map<Eigen::VectorXd const> constraints(g, number_of_constraints);
     best_solution = solution;
     best_objective_value = obj_value;
+    // the point evaluated last need not be the solution:
+    optimizer->new_x();
     best_cost_value = 0;
     optimizer->evaluate_cost(solution, best_cost_value);
     best_penalty_value = 0;
-- 
2.43.0


From 00b9b4d8606d05c96654f7f452f780c6dbd2b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:06 +0000
Subject: [PATCH 09/29] fix: report the actual Ipopt status of a failed
 optimization

---
 src/IpoptWrapper/Wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IpoptWrapper/Wrapper.cpp b/src/IpoptWrapper/Wrapper.cpp
index aed83dc..b1be964 100644
--- a/src/IpoptWrapper/Wrapper.cpp
+++ b/src/IpoptWrapper/Wrapper.cpp
@@ -161,7 +161,7 @@ namespace Optimization {
       Ipopt::IpoptCalculatedQuantities * /* ip_cq */) {
     if (status != Ipopt::SUCCESS) {
       std::cout << "\n\n\nFAILED TO FIND AN OPTIMUM:\nIpopt status was: "
-                << static_cast<int>(Ipopt::SUCCESS) << "\n";
+                << static_cast<int>(status) << "\n";
       std::cout << "Compare the values to the enum Ipopt::SUCCESS in the IPOPT "
                    "manual for what "
                    "that means.\n\n\n"
-- 
2.43.0


From 1c7d02185af3348f04966e5ff8a69a6c9b305cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:06 +0000
Subject: [PATCH 10/29] fix: do not save states of other controls if the final
 simulation fails

---
 src/Grazer/commands.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index b51af84..d518674 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -254,7 +254,10 @@ int grazer::run(std::filesystem::path directory_path) {
 
       Eigen::VectorXd ipoptconstraints(optimizer.get_total_no_constraints());
 
-      optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints);
+      optimizer.new_x();
+      if (not optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints)) {
+        gthrow({"The simulation with the final controls failed!"});
+      }
       auto lower_violation
           = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
                 .maxCoeff();
@@ -267,8 +270,9 @@ int grazer::run(std::filesystem::path directory_path) {
                 << std::max(0.0, upper_violation) << std::endl;
 
       double objective = 0;
-      optimizer.new_x();
-      optimizer.evaluate_objective(ipoptcontrols, objective);
+      if (not optimizer.evaluate_objective(ipoptcontrols, objective)) {
+        gthrow({"The simulation with the final controls failed!"});
+      }
       auto &state_solution = optimizer.get_current_full_state();
       Aux::ConstMappedInterpolatingVector const control_solution(
           control_timepoints, problem.get_number_of_controls_per_timepoint(),
-- 
2.43.0


From 29712b2191f77a7278e09d32f1237b50e765419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:06 +0000
Subject: [PATCH 11/29] fix: stochastic power nodes report the power of the
 saved state

---
 src/Model/Networkproblem/Power/StochasticPQnode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Model/Networkproblem/Power/StochasticPQnode.cpp b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
index a403406..ecad326 100644
--- a/src/Model/Networkproblem/Power/StochasticPQnode.cpp
+++ b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
@@ -149,8 +149,8 @@ namespace Model::Power {
 
   void StochasticPQnode::json_save(
       double time, Eigen::Ref<Eigen::VectorXd const> const &state) {
-    auto P_val = current_P;
-    auto Q_val = current_Q;
+    auto P_val = P(state);
+    auto Q_val = Q(state);
     auto P_deviation = P_val - boundaryvalue(time)[0];
     auto Q_deviation = Q_val - boundaryvalue(time)[1];
 
-- 
2.43.0


From 1c5736adf88aa2d28b6278639aa89368d9ff4d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:41 +0000
Subject: [PATCH 12/29] fix: constrain the pressure, not the density, at a
 ConstraintSink with a pipe

---
 src/Model/Networkproblem/Gas/ConstraintSink.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Model/Networkproblem/Gas/ConstraintSink.cpp b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
index f2d2a39..ae65dc2 100644
--- a/src/Model/Networkproblem/Gas/ConstraintSink.cpp
+++ b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
@@ -35,22 +35,23 @@ namespace Model::Gas {
       Eigen::Ref<Eigen::VectorXd const> const & /*control*/) const {
     auto first_direction = directed_attached_gas_edges[0].first;
     auto sample_gas_edge = directed_attached_gas_edges[0].second;
-    auto sample_boundary_state
-        = sample_gas_edge->get_boundary_state(first_direction, state);
-    auto sample_pressure = sample_boundary_state[0];
+    auto sample_p_qvol
+        = sample_gas_edge->get_boundary_p_qvol_bar(first_direction, state);
+    auto sample_pressure = sample_p_qvol[0];
 
     constraint_values[get_constraint_startindex()] = sample_pressure;
   }
 
   void ConstraintSink::d_evaluate_constraint_d_state(
       Aux::Matrixhandler &constraint_new_state_jacobian_handler, double,
-      Eigen::Ref<Eigen::VectorXd const> const &,
+      Eigen::Ref<Eigen::VectorXd const> const &state,
       Eigen::Ref<Eigen::VectorXd const> const &) const {
     auto first_direction = directed_attached_gas_edges[0].first;
     auto *sample_gas_edge = directed_attached_gas_edges[0].second;
-    auto index = sample_gas_edge->get_boundary_state_index(first_direction);
-    constraint_new_state_jacobian_handler.add_to_coefficient(
-        get_constraint_startindex(), index, 1.0);
+    Eigen::RowVector2d dconstraint_dp_qvol(1.0, 0.0);
+    sample_gas_edge->dboundary_p_qvol_dstate(
+        first_direction, constraint_new_state_jacobian_handler,
+        dconstraint_dp_qvol, get_constraint_startindex(), state);
   }
 
   void ConstraintSink::d_evaluate_constraint_d_control(
-- 
2.43.0


From fa9443b93a1227a3beb9a0ed5d8f37b5a51348f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:44 +0000
Subject: [PATCH 13/29] fix: a failed evaluation of the final cost or penalty
 is not reported as zero

---
 src/IpoptWrapper/Wrapper.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/IpoptWrapper/Wrapper.cpp b/src/IpoptWrapper/Wrapper.cpp
index b1be964..d501d6f 100644
--- a/src/IpoptWrapper/Wrapper.cpp
+++ b/src/IpoptWrapper/Wrapper.cpp
@@ -174,9 +174,13 @@ namespace Optimization {
     // the point evaluated last need not be the solution:
     optimizer->new_x();
     best_cost_value = 0;
-    optimizer->evaluate_cost(solution, best_cost_value);
+    if (not optimizer->evaluate_cost(solution, best_cost_value)) {
+      best_cost_value = std::numeric_limits<double>::quiet_NaN();
+    }
     best_penalty_value = 0;
-    optimizer->evaluate_penalty(solution, best_penalty_value);
+    if (not optimizer->evaluate_penalty(solution, best_penalty_value)) {
+      best_penalty_value = std::numeric_limits<double>::quiet_NaN();
+    }
     best_constraints = constraints;
   }
 
-- 
2.43.0


From 6e826f93642b5395646c210d5e711413cc20837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:00 +0000
Subject: [PATCH 14/29] fix: boundary schema requires entries, each with time
 and values

---
 src/Auxillary/json_schema/make_schema.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/json_schema/make_schema.cpp b/src/Auxillary/json_schema/make_schema.cpp
index a37eb66..29183bd 100644
--- a/src/Auxillary/json_schema/make_schema.cpp
+++ b/src/Auxillary/json_schema/make_schema.cpp
@@ -160,13 +160,15 @@ namespace Aux::schema {
     })"_json;
 
     nlohmann::json data_element;
-    add_property(data_element, "time", type::number());
-    add_property(
+    data_element["type"] = "object";
+    add_required(data_element, "time", type::number());
+    add_required(
         data_element, "values",
         make_list_schema_of(
             type::number(),
             {{"minItems", num_values}, {"maxItems", num_values}}));
-    add_property(schema, "data", make_list_schema_of(data_element));
+    add_property(
+        schema, "data", make_list_schema_of(data_element, {{"minItems", 1}}));
     return schema;
   }
 
-- 
2.43.0


From 92561ded43e1e73e5fd1fa0890693d01569af5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:32 +0000
Subject: [PATCH 15/29] fix: seed schema requires exactly the seed's integers

---
 src/Model/Networkproblem/Power/StochasticPQnode.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Model/Networkproblem/Power/StochasticPQnode.cpp b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
index ecad326..4b43fc6 100644
--- a/src/Model/Networkproblem/Power/StochasticPQnode.cpp
+++ b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
@@ -19,6 +19,7 @@
 #include "Stochastic.hpp"
 #include "make_schema.hpp"
 #include <fstream>
+#include <limits>
 
 namespace Model::Power {
 
@@ -43,8 +44,12 @@ namespace Model::Power {
 
   nlohmann::json StochasticPQnode::get_boundary_schema() {
     auto boundary_schema = Aux::schema::make_boundary_schema(2);
-    auto seed_schema
-        = Aux::schema::make_list_schema_of(Aux::schema::type::number());
+    auto seed_entry = Aux::schema::type::simple("integer");
+    seed_entry["minimum"] = 0;
+    seed_entry["maximum"] = std::numeric_limits<uint32_t>::max();
+    auto seed_schema = Aux::schema::make_list_schema_of(
+        seed_entry, {{"minItems", Aux::pcg_seed_count},
+                     {"maxItems", Aux::pcg_seed_count}});
     Aux::schema::add_property(boundary_schema, "seed", seed_schema);
     return boundary_schema;
   }
-- 
2.43.0


From beff1785dd69a3b427f4ce3b1323dee6080be72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:02 +0000
Subject: [PATCH 16/29] fix: a unit's number must not be empty

---
 src/Auxillary/unit_conversion/unit_conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxillary/unit_conversion/unit_conversion.cpp b/src/Auxillary/unit_conversion/unit_conversion.cpp
index cdb0505..ef35603 100644
--- a/src/Auxillary/unit_conversion/unit_conversion.cpp
+++ b/src/Auxillary/unit_conversion/unit_conversion.cpp
@@ -164,7 +164,7 @@ namespace Aux::unit {
     json pattern1;
     pattern1["pattern"] = "^" + simple_pattern;
     json pattern2;
-    pattern2["pattern"] = "^([0-9]*(\\.[0-9]+)?(e-?[0-9]+)? )" + simple_pattern;
+    pattern2["pattern"] = "^(([0-9]+(\\.[0-9]+)?|\\.[0-9]+)(e-?[0-9]+)? )" + simple_pattern;
     type_schema["properties"]["unit"]["oneOf"].push_back(pattern1);
     type_schema["properties"]["unit"]["oneOf"].push_back(pattern2);
     return type_schema;
-- 
2.43.0


From 3240c11b8c4a1db2e829e78122a36c96205227df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:30 +0000
Subject: [PATCH 17/29] fix: squared and cubed units accept their own name and
 scale their prefix

---
 .../include/unit_conversion.hpp               |  6 ++--
 .../unit_conversion/unit_conversion.cpp       | 35 +++++++++++++++----
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/Auxillary/unit_conversion/include/unit_conversion.hpp b/src/Auxillary/unit_conversion/include/unit_conversion.hpp
index 261f584..1b74bf7 100644
--- a/src/Auxillary/unit_conversion/include/unit_conversion.hpp
+++ b/src/Auxillary/unit_conversion/include/unit_conversion.hpp
@@ -101,11 +101,12 @@ namespace Aux::unit {
    *
    * @param prefix the prefix string to parse
    * @param prefix_map the prefix_map which includes all the possible symbols
+   * @param exponent the power to which the symbol is raised (e.g. 2 for "km^2")
    * @return double the prefix value
    */
   double parse_prefix(
       std::string const &prefix,
-      std::map<std::string, Conversion> const &prefix_map);
+      std::map<std::string, Conversion> const &prefix_map, int exponent = 1);
 
   /**
    * @brief parses a string which is the prefix of a unit (e.g. "500 k" of "500
@@ -113,9 +114,10 @@ namespace Aux::unit {
    * prefix
    *
    * @param prefix the prefix string to parse
+   * @param exponent the power to which the si prefix is raised
    * @return double the prefix value
    */
-  double parse_prefix_si(std::string const &prefix);
+  double parse_prefix_si(std::string const &prefix, int exponent = 1);
 
   const std::tuple<std::string, Conversion> parse_unit(
       std::string const &unit,
diff --git a/src/Auxillary/unit_conversion/unit_conversion.cpp b/src/Auxillary/unit_conversion/unit_conversion.cpp
index ef35603..7ed48b5 100644
--- a/src/Auxillary/unit_conversion/unit_conversion.cpp
+++ b/src/Auxillary/unit_conversion/unit_conversion.cpp
@@ -16,6 +16,7 @@
  */
 #include <unit_conversion.hpp>
 
+#include <cmath>
 #include <map>
 #include <schema_validation.hpp>
 #include <sstream>
@@ -76,7 +77,7 @@ namespace Aux::unit {
 
   double parse_prefix(
       std::string const &prefix,
-      std::map<std::string, Conversion> const &prefix_map) {
+      std::map<std::string, Conversion> const &prefix_map, int exponent) {
     // split into num_prefix and si_prefix
     std::string si_prefix;
     double num_prefix;
@@ -103,11 +104,22 @@ namespace Aux::unit {
       throw std::runtime_error(o.str());
     }
     Conversion conv = search_si_prefix->second;
-    return conv(num_prefix);
+    return num_prefix * std::pow(conv(1.0), exponent);
   }
 
-  double parse_prefix_si(std::string const &prefix) {
-    return parse_prefix(prefix, si_prefixes);
+  double parse_prefix_si(std::string const &prefix, int exponent) {
+    return parse_prefix(prefix, si_prefixes, exponent);
+  }
+
+  /// The power of a unit's base to which a prefix belongs, e.g. 2 for "m^2".
+  static int get_prefix_exponent(std::string const &unit) {
+    if (unit.rfind("m^2", 0) == 0) {
+      return 2;
+    }
+    if (unit.rfind("m^3", 0) == 0 or unit.rfind("m_cube", 0) == 0) {
+      return 3;
+    }
+    return 1;
   }
 
   Conversion::Conversion(double _multiplicator, double _offset) :
@@ -127,7 +139,10 @@ namespace Aux::unit {
     std::string unit = measurement["unit"].get<std::string>();
 
     auto [prefix, conv] = parse_unit(unit, this->conversion_map);
-    return conv(measurement["value"].get<double>() * parse_prefix_si(prefix));
+    auto exponent = get_prefix_exponent(unit.substr(prefix.size()));
+    return conv(
+        measurement["value"].get<double>()
+        * parse_prefix_si(prefix, exponent));
   }
 
   const std::tuple<std::string, Conversion> parse_unit(
@@ -172,7 +187,15 @@ namespace Aux::unit {
   std::string re_capture_from_map(std::map<std::string, Conversion> map) {
     std::ostringstream regex_stream;
     regex_stream << "(";
-    for (auto [item, _] : map) { regex_stream << item << "|"; }
+    for (auto [item, _] : map) {
+      for (auto character : item) {
+        if (character == '^') {
+          regex_stream << "\\";
+        }
+        regex_stream << character;
+      }
+      regex_stream << "|";
+    }
     std::string regex = regex_stream.str();
     regex.pop_back();
     return regex + ")";
-- 
2.43.0


From f229591e2e0ff80c9c70d9c45fe2cc04698dba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:27 +0000
Subject: [PATCH 18/29] fix: reject initial values, controls and bounds given
 twice for the same id

---
 src/Model/Networkproblem/Networkproblem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Model/Networkproblem/Networkproblem.cpp b/src/Model/Networkproblem/Networkproblem.cpp
index 0667343..7d932cc 100644
--- a/src/Model/Networkproblem/Networkproblem.cpp
+++ b/src/Model/Networkproblem/Networkproblem.cpp
@@ -63,6 +63,7 @@ namespace Model {
 
     auto ids = get_ids_of_objects(components);
     std::sort(ids.begin(), ids.end());
+    Aux::check_for_duplicates(json, key);
     auto json_ids = Aux::get_sorted_ids_of_json(json, key);
 
     size_t json_index = 0;
-- 
2.43.0


From 92192c9ac23032cde702d10684de8f96c830c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:33 +0000
Subject: [PATCH 19/29] fix: no access before the first constraint time when
 all constraints are passed

---
 src/IpoptWrapper/ImplicitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/IpoptWrapper/ImplicitOptimizer.cpp b/src/IpoptWrapper/ImplicitOptimizer.cpp
index 68a032b..d565a50 100644
--- a/src/IpoptWrapper/ImplicitOptimizer.cpp
+++ b/src/IpoptWrapper/ImplicitOptimizer.cpp
@@ -566,8 +566,9 @@ namespace Optimization {
           // constraints:
           // Find out, whether a new constraint appears at this index:
           bool current_step_is_new_constraint_time = false;
-          if (constraint_timepoints[constraint_index - 1]
-              == state_timepoints[state_index]) {
+          if (constraint_index > 0
+              and constraint_timepoints[constraint_index - 1]
+                      == state_timepoints[state_index]) {
             constraints_are_active_at_current_time = true;
             --constraint_index;
             current_step_is_new_constraint_time = true;
-- 
2.43.0


From 8884eaa4b1a15b352ab620f7260d2810f3598a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:39 +0000
Subject: [PATCH 20/29] fix: refilling a matrix starts from zero after entries
 were inserted

---
 src/Auxillary/Matrixhandler/Matrixhandler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Auxillary/Matrixhandler/Matrixhandler.cpp b/src/Auxillary/Matrixhandler/Matrixhandler.cpp
index e8b5955..a5afc60 100644
--- a/src/Auxillary/Matrixhandler/Matrixhandler.cpp
+++ b/src/Auxillary/Matrixhandler/Matrixhandler.cpp
@@ -57,7 +57,9 @@ namespace Aux {
   Coeffrefhandler<Transpose>::Coeffrefhandler(
       Eigen::SparseMatrix<double> &_matrix) :
       Matrixhandler(_matrix) {
-    // Set the matrix to zero:
+    // Set the matrix to zero (inserted coefficients may have left unused room
+    // in between the others, which has to be closed first):
+    _matrix.makeCompressed();
     Eigen::Map<Eigen::VectorXd> coefficients(
         _matrix.valuePtr(), _matrix.nonZeros());
     coefficients.setZero();
-- 
2.43.0


From 3d87a63648b8fff99c7a034a8f39aab9a9ae640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:15 +0000
Subject: [PATCH 21/29] fix: equidistant interpolation points no longer
 accumulate rounding errors

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index f9f805c..88447c9 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -115,10 +115,10 @@ namespace Aux {
     auto delta = data.delta;
     auto number_of_entries = data.number_of_entries;
     std::vector<double> interpolation_points;
-    auto currentpoint = startpoint;
     for (size_t index = 0; index != number_of_entries; ++index) {
-      interpolation_points.push_back(currentpoint);
-      currentpoint += delta;
+      // not accumulated, so that rounding errors do not add up:
+      interpolation_points.push_back(
+          startpoint + static_cast<double>(index) * delta);
     }
     assert(interpolation_points.front() == startpoint);
     // check for double equality. Should be an aux function...
-- 
2.43.0


From 0c1ee2b9891ae2ca1713eebcefb2f678b7378033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:15 +0000
Subject: [PATCH 22/29] fix: the final time is a constraint time for every
 evaluate_constraints_every_n

---
 src/Grazer/commands.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index d518674..02ac4f3 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -180,9 +180,8 @@ int grazer::run(std::filesystem::path directory_path) {
 
         constraint_timepoints[index] = state_timepoints[1 + n * index];
       }
-      if (state_timepoints.size() % n != 0) {
-        back(constraint_timepoints) = back(state_timepoints);
-      }
+      // the final time is always constrained:
+      back(constraint_timepoints) = back(state_timepoints);
 
       auto lower_bounds_json = aux_json::get_json_from_file_path(
           problem_directory / std::filesystem::path("lower_bounds.json"));
-- 
2.43.0


From 00ee7b04b2da56e03e701349e3a8bbe6962cab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:15 +0000
Subject: [PATCH 23/29] fix: the written problem_data schema described an
 outdated format

It demanded initial_values and problem_data.subproblems, which grazer does not
read, and did not know the keys grazer reads: every problem_data.json that can
be run was rejected by its own schema.
---
 .../json_schema/schema_generation.cpp         | 87 ++++++++-----------
 1 file changed, 34 insertions(+), 53 deletions(-)

diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index 3072156..70cc561 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -127,7 +127,7 @@ namespace Aux::schema {
       "$schema": "http://json-schema.org/draft-07/schema",
       "type": "object",
       "description": "Metadata of the Problem",
-      "required": ["simulation_settings", "initial_values", "problem_data"],
+      "required": ["simulation_settings", "problem_data"],
       "properties": {
         "simulation_settings": {
           "type": "object",
@@ -151,66 +151,47 @@ namespace Aux::schema {
             "desired_delta_t": {"type": "number"}
           }
         },
-        "initial_values": {
+        "optimize": {
+          "type": "boolean",
+          "description": "whether to optimize the controls or only simulate"
+        },
+        "control_settings": {
           "type": "object",
-          "description": "holds a file name to an additional initial values json sorted by subproblem",
-          "required": ["subproblems"],
+          "description": "sets the control times, the simulation times are used, if it is missing",
           "properties": {
-            "subproblems": {
-              "type": "object",
-              "required": ["Network_problem"],
-              "properties": {
-                "Network_problem": {
-                  "type": "object",
-                  "required": ["initial_json"],
-                  "properties": {
-                    "initial_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Initial Values JSON file"
-                    }
-                  }
-                }
-              }
-            }
+            "desired_delta_t": {"type": "number"},
+            "number_of_steps": {"type": "integer", "minimum": 2}
+          },
+          "oneOf": [
+            {"required": ["desired_delta_t"]},
+            {"required": ["number_of_steps"]}
+          ]
+        },
+        "constraint_settings": {
+          "type": "object",
+          "properties": {
+            "evaluate_constraints_every_n": {"type": "integer", "minimum": 1}
           }
         },
         "problem_data": {
           "type": "object",
-          "description": "holds a file name to an additional initial values json sorted by subproblem",
-          "required": ["subproblems"],
+          "description": "holds the file names of topology and boundary and the default values of the components",
+          "required": ["topology_json", "boundary_json"],
           "properties": {
-            "subproblems": {
+            "defaults": {
               "type": "object",
-              "required": ["Network_problem"],
-              "properties": {
-                "Network_problem": {
-                  "type": "object",
-                  "required": ["defaults", "topology_json", "boundary_json", "control_json"],
-                  "properties": {
-                    "defaults": {
-                      "type": "object",
-                      "patternProperties": {"^.*$": {"type": "object"}},
-                      "description": "Components With default Topology Properties"
-                    },
-                    "topology_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Topology JSON file"
-                    },
-                    "boundary_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Boundary JSON file"
-                    },
-                    "control": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Control JSON file"
-                    }
-                  }
-                }
-              }
+              "patternProperties": {"^.*$": {"type": "object"}},
+              "description": "Components With default Topology Properties"
+            },
+            "topology_json": {
+              "type": ["string", "object"],
+              "format": "iri-reference",
+              "description": "Topology JSON file"
+            },
+            "boundary_json": {
+              "type": ["string", "object"],
+              "format": "iri-reference",
+              "description": "Boundary JSON file"
             }
           }
         }
-- 
2.43.0


From ba832d476b125b8ffbaea611e154b48787fcfb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:59 +0000
Subject: [PATCH 24/29] fix: defaults for boundary values made the topology
 schema throw

---
 .../include/Componentfactory.hpp               | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Model/Componentfactory/include/Componentfactory.hpp b/src/Model/Componentfactory/include/Componentfactory.hpp
index d175b49..01ceaea 100644
--- a/src/Model/Componentfactory/include/Componentfactory.hpp
+++ b/src/Model/Componentfactory/include/Componentfactory.hpp
@@ -259,8 +259,15 @@ namespace Model::Componentfactory {
         //   Aux::schema::add_required(schema, "control_values",
         //   control_schema);
         // }
+        Aux::schema::add_defaults(schema, defaults);
+      } else {
+        // defaults of external values belong to the schemas of their own files
+        nlohmann::json own_defaults = defaults;
+        if (own_defaults.contains("boundary_values")) {
+          own_defaults.erase("boundary_values");
+        }
+        Aux::schema::add_defaults(schema, own_defaults);
       }
-      Aux::schema::add_defaults(schema, defaults);
       if (not allow_required_defaults) {
         Aux::schema::remove_defaults_from_required(schema);
       }
@@ -362,8 +369,15 @@ namespace Model::Componentfactory {
         //   Aux::schema::add_required(schema, "control_values",
         //   control_schema);
         // }
+        Aux::schema::add_defaults(schema, defaults);
+      } else {
+        // defaults of external values belong to the schemas of their own files
+        nlohmann::json own_defaults = defaults;
+        if (own_defaults.contains("boundary_values")) {
+          own_defaults.erase("boundary_values");
+        }
+        Aux::schema::add_defaults(schema, own_defaults);
       }
-      Aux::schema::add_defaults(schema, defaults);
       if (not allow_required_defaults) {
         Aux::schema::remove_defaults_from_required(schema);
       }
-- 
2.43.0


From ab32e619a3e042b3d83886b9a732967c3b9e2c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:33 +0000
Subject: [PATCH 25/29] fix: reject time steps that are not positive

---
 src/Auxillary/Timedata/Timedata.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Auxillary/Timedata/Timedata.cpp b/src/Auxillary/Timedata/Timedata.cpp
index d31e018..4af81e1 100644
--- a/src/Auxillary/Timedata/Timedata.cpp
+++ b/src/Auxillary/Timedata/Timedata.cpp
@@ -16,6 +16,8 @@
  */
 #include "Timedata.hpp"
 #include <iostream>
+#include <stdexcept>
+#include <string>
 
 namespace Model {
 
@@ -27,6 +29,11 @@ namespace Model {
       delta_t(init_delta_t()) {}
 
   int Timedata::init_Number_of_timesteps(double desired_delta_t) const {
+    if (not(desired_delta_t > 0)) {
+      throw std::runtime_error(
+          "The desired time step must be positive, but it is "
+          + std::to_string(desired_delta_t) + ".");
+    }
     int const _Number_of_timesteps
         = static_cast<int>(std::ceil(get_timeinterval() / desired_delta_t)) + 1;
     return _Number_of_timesteps;
-- 
2.43.0


From fe018a1e2e94df5d447063637364871051bba5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:33 +0000
Subject: [PATCH 26/29] fix: an equidistant grid with given ends needs at least
 two points

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index 88447c9..0bcd555 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -32,10 +32,11 @@ namespace Aux {
 
   Interpolation_data make_from_start_number_end(
       double first_point, double last_point, int number_of_entries) {
-    if (number_of_entries <= 0) {
+    // a single entry can't be at both ends:
+    if (number_of_entries <= 1) {
       gthrow(
-          {"You can't have negative or zero number of entries in an "
-           "InterpolatingVector.\n",
+          {"You can't have less than two entries in an "
+           "InterpolatingVector with given first and last point.\n",
            "Supplied number of entries: ", std::to_string(number_of_entries)});
     }
     if (last_point <= first_point) {
-- 
2.43.0


From a3dbd1483b98c53e44af53397221840135977e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:08 +0000
Subject: [PATCH 27/29] fix: an optimization without constraints crashed after
 the optimization

---
 src/Grazer/commands.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index 02ac4f3..1563431 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -257,16 +257,19 @@ int grazer::run(std::filesystem::path directory_path) {
       if (not optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints)) {
         gthrow({"The simulation with the final controls failed!"});
       }
-      auto lower_violation
-          = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
-                .maxCoeff();
-      std::cout << "Maximum lower constraint violation:\n"
-                << std::max(0.0, lower_violation) << std::endl;
-      auto upper_violation
-          = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))
-                .maxCoeff();
-      std::cout << "Maximum upper constraint violation:\n"
-                << std::max(0.0, upper_violation) << std::endl;
+      // there is no maximum without constraints:
+      if (ipoptconstraints.size() > 0) {
+        auto lower_violation
+            = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
+                  .maxCoeff();
+        std::cout << "Maximum lower constraint violation:\n"
+                  << std::max(0.0, lower_violation) << std::endl;
+        auto upper_violation
+            = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))
+                  .maxCoeff();
+        std::cout << "Maximum upper constraint violation:\n"
+                  << std::max(0.0, upper_violation) << std::endl;
+      }
 
       double objective = 0;
       if (not optimizer.evaluate_objective(ipoptcontrols, objective)) {
-- 
2.43.0


From eee5a09bc4c701eb557aaddfea22e84bbbc63e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:33 +0000
Subject: [PATCH 28/29] fix: optimizing a problem without controls accessed an
 empty vector

---
 src/Grazer/commands.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index 1563431..284e68f 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -152,6 +152,9 @@ int grazer::run(std::filesystem::path directory_path) {
       wall_clock_sim_end = Clock::now();
     } else {
       // optimize!
+      if (problem.get_number_of_controls_per_timepoint() == 0) {
+        gthrow({"The problem has no controls, there is nothing to optimize!"});
+      }
       Eigen::Index n = 1;
       if (all_json.contains("constraint_settings")) {
         auto &constraint_settings = all_json["constraint_settings"];
-- 
2.43.0


From 0292e4bb6a770cc6ca0c52735cb078b0a099e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:37 +0000
Subject: [PATCH 29/29] fix: constraining an unconnected ConstraintSink
 accessed an empty vector

---
 src/Model/Networkproblem/Gas/ConstraintSink.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Model/Networkproblem/Gas/ConstraintSink.cpp b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
index ae65dc2..ef60117 100644
--- a/src/Model/Networkproblem/Gas/ConstraintSink.cpp
+++ b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
@@ -15,6 +15,7 @@
  *
  */
 #include "ConstraintSink.hpp"
+#include "Exception.hpp"
 #include "Matrixhandler.hpp"
 #include "SimpleConstraintcomponent.hpp"
 #include "make_schema.hpp"
@@ -33,6 +34,11 @@ namespace Model::Gas {
       Eigen::Ref<Eigen::VectorXd> constraint_values, double /*time*/,
       Eigen::Ref<Eigen::VectorXd const> const &state,
       Eigen::Ref<Eigen::VectorXd const> const & /*control*/) const {
+    if (directed_attached_gas_edges.empty()) {
+      gthrow(
+          {"The ConstraintSink ", get_id(),
+           " has no gas edge, so it has no pressure to constrain!"});
+    }
     auto first_direction = directed_attached_gas_edges[0].first;
     auto sample_gas_edge = directed_attached_gas_edges[0].second;
     auto sample_p_qvol
@@ -46,6 +52,11 @@ namespace Model::Gas {
       Aux::Matrixhandler &constraint_new_state_jacobian_handler, double,
       Eigen::Ref<Eigen::VectorXd const> const &state,
       Eigen::Ref<Eigen::VectorXd const> const &) const {
+    if (directed_attached_gas_edges.empty()) {
+      gthrow(
+          {"The ConstraintSink ", get_id(),
+           " has no gas edge, so it has no pressure to constrain!"});
+    }
     auto first_direction = directed_attached_gas_edges[0].first;
     auto *sample_gas_edge = directed_attached_gas_edges[0].second;
     Eigen::RowVector2d dconstraint_dp_qvol(1.0, 0.0);
-- 
2.43.0

