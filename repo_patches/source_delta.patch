From c879ee53da09cae95638eaeb6da205349f775a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 01/52] fix: choose the CNOT ancilla placement before the first
 gate is parsed

With a layout without ancilla cells the first gate was parsed before the
placement was overridden, so a leading cx could never be executed, and the
override leaked into later runs of the same process.
---
 src/pipelines/slicer.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index ac3cd89..ed7a3b5 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -379,6 +379,16 @@ namespace lsqecc
         if (parser.exists("notwists"))
             sgate_mode = SGateMode::Catalytic;
 
+        // Override the choice of ancilla placements when no location is provided. Gates take their placement when they are
+        // parsed, so it needs to be known before the gate stream is opened (edpc layouts never have ancilla cells)
+        const auto* custom_layout = std::get_if<std::unique_ptr<LayoutFromSpec>>(&layout_mode);
+        const bool no_ancilla_location = custom_layout
+                ? (*custom_layout)->ancilla_location().empty()
+                : std::get<AutoLayoutMode>(layout_mode) == AutoLayoutMode::Edpc;
+        gates::ControlledGate::default_ancilla_placement = no_ancilla_location
+                ? gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET
+                : gates::CNOTAncillaPlacement::USE_DEDICATED_CELL;
+
         IdGenerator id_generator;
         std::unique_ptr<LSInstructionStream> instruction_stream;
         std::unique_ptr<GateStream> gate_stream;
@@ -514,12 +524,6 @@ namespace lsqecc
             }
         }
 
-        // Override the choice of ancilla placements when no location is provided
-        if(layout->ancilla_location().empty())
-        {
-            gates::ControlledGate::default_ancilla_placement = gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET;
-        }
-
         if (!pipeline_mode_validity_checker)
             throw std::runtime_error("PipelineMode::EDPC only valid when paired with (default or 1-lane condensed) EDPC layout and CompilationMode::Local.");
 
-- 
2.43.0


From 5356d9390fe663972592fc158b1b34702a977c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 02/52] fix: start the id generator past the largest declared
 patch for LLI input

std::max compared the iterators and the end iterator was dereferenced.
---
 src/pipelines/slicer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index ed7a3b5..35c8b88 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -25,6 +25,7 @@
 #include <argparse/argparse.h>
 #include <nlohmann/json.hpp>
 
+#include <algorithm>
 #include <iostream>
 #include <string_view>
 #include <sstream>
@@ -396,8 +397,9 @@ namespace lsqecc
         if (input_format == InputFormat::LLI)
         {
             instruction_stream = std::make_unique<LSInstructionStreamFromFile>(input_file_stream.get());
-            id_generator.set_start(*std::max(instruction_stream->core_qubits().begin(),
-                                             instruction_stream->core_qubits().end()));
+            const auto& core_qubits = instruction_stream->core_qubits();
+            auto max_core_qubit = std::max_element(core_qubits.begin(), core_qubits.end());
+            id_generator.set_start(max_core_qubit != core_qubits.end() ? *max_core_qubit + 1 : 0);
             if( print_dag_mode == PrintDagMode::Input )
             {
                 auto dag = dag::full_dependency_dag_from_instruction_stream(*instruction_stream);
-- 
2.43.0


From 4f26e903ce9b158c9ccbd1aa5d3d83cf30b19de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:39 +0000
Subject: [PATCH 03/52] fix: do not start rotating a patch that is active on
 the same slice

A RotateSingleCellPatch following a merge of its patch was applied on the
slice of the merge, tearing the patch out of the measurement.
---
 src/patches/dense_patch_computation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index da43fae..635aa0e 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1272,6 +1272,9 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
             slice.patch_at(target_cell)->activity = PatchActivity::None;
         }
 
+        if (slice.patch_at(target_cell)->is_active())
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", rotation->target, " is active")), {}};
+
         BusyRegion rotation_instruction{single_patch_rotation_a_la_litinski(slice.patch_at(target_cell)->to_sparse_patch(target_cell), *free_neighbour)};
 
         slice.patch_at(target_cell) = std::nullopt;
-- 
2.43.0


From 17aae431349a55edcffd567cdb11570a1f7b2fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:39 +0000
Subject: [PATCH 04/52] fix: make the boost graph search route through free
 cells along a shortest path

The free cell test was inverted, routes could enter occupied cells, all
edges had weight zero and the extra vertex of a twist route did not exist.
---
 .../graph_search/boost_based_graph_search.cpp     | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/layout/graph_search/boost_based_graph_search.cpp b/src/layout/graph_search/boost_based_graph_search.cpp
index d5e2999..eef34c7 100644
--- a/src/layout/graph_search/boost_based_graph_search.cpp
+++ b/src/layout/graph_search/boost_based_graph_search.cpp
@@ -61,7 +61,7 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
         {
             Cell current{row_idx, col_idx};
             vertices.push_back(make_vertex(current));
-            if (!slice.is_cell_free(current))
+            if (slice.is_cell_free(current))
                 for (const Cell& neighbour: current.get_neigbours_within_bounding_box_inclusive({0, 0}, furthest_cell))
                     if (slice.is_cell_free(neighbour))
                         edges.emplace_back(make_vertex(neighbour), make_vertex(current));
@@ -71,28 +71,33 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
 
     // Add source
     const auto source_cell = *slice.get_cell_by_id(source);
+    const auto target_cell = *slice.get_cell_by_id(target);
     for (Cell neighbour: slice.get_neigbours_within_slice(source_cell))
     {
-        if (slice.have_boundary_of_type_with(source_cell, neighbour, source_op))
+        bool can_enter_neighbour = slice.is_cell_free(neighbour)
+                || (neighbour == target_cell && slice.have_boundary_of_type_with(target_cell, source_cell, target_op));
+        if (can_enter_neighbour && slice.have_boundary_of_type_with(source_cell, neighbour, source_op))
             edges.emplace_back(make_vertex(source_cell), make_vertex(neighbour));
 
     }
 
     // Add target
-    const auto target_cell = *slice.get_cell_by_id(target);
 
     // This means we are trying to do an S-gate/twist measurement so we artificially add a new source coinciding
     // with the existing one
     Vertex target_vertex =
             target==source ? (*std::max_element(vertices.begin(), vertices.end()))+1 : make_vertex(target_cell);
+    if (target==source)
+        vertices.push_back(target_vertex);
 
     for (Cell neighbour: slice.get_neigbours_within_slice(target_cell))
     {
-        if (slice.have_boundary_of_type_with(target_cell, neighbour,target_op))
+        if (slice.is_cell_free(neighbour) && slice.have_boundary_of_type_with(target_cell, neighbour,target_op))
             edges.emplace_back(make_vertex(neighbour), target_vertex);
     }
 
-    Graph g{edges.begin(), edges.end(), vertices.size()};
+    std::vector<int> weights(edges.size(), 1);
+    Graph g{edges.begin(), edges.end(), weights.begin(), vertices.size()};
 
     property_map<Graph, vertex_predecessor_t>::type p
             = get(vertex_predecessor, g);
-- 
2.43.0


From 19bebf1e4b9f9a5fc5eb24e320113202e71b2ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 05/52] fix: do not read past the end of the string when
 splitting on a string delimiter

---
 include/lstk/lstk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index 23f27c3..6e9f491 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -115,7 +115,7 @@ static inline std::vector<std::string_view> split_on(std::string_view s, std::st
 
     while (accum_end != s.end())
     {
-        if (std::equal(delim.begin(), delim.end(), accum_end))
+        if (std::string_view(accum_end, s.end()).starts_with(delim))
         {
             push_accum_to_ret();
             accum_end += delim.size(); // skip the delim
@@ -128,7 +128,7 @@ static inline std::vector<std::string_view> split_on(std::string_view s, std::st
         push_accum_to_ret();
 
     // Add a trailing empty string when finishing on a delimiter
-    else if(accum_begin > s.begin() && std::equal(delim.begin(), delim.end(), accum_end)) ret.push_back("");
+    else if(accum_begin > s.begin()) ret.push_back("");
 
     return ret;
 }
-- 
2.43.0


From 581689a5a8cc545f51b2319adafb2ceffad169ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 06/52] fix: do not index past the end of blank or one
 character QASM lines

---
 src/gates/parse_gates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 268e548..17bbe32 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -259,8 +259,8 @@ ParseGateResult parse_gate(std::string_view str_line)
     lstk::ltrim(sline);
     str_line = std::string_view { sline };
 
-    // check for comment at beginning of line
-    if (str_line[0]=='/' && str_line[1] == '/')
+    // check for comment at beginning of line (or nothing but blanks)
+    if (str_line.empty() || str_line.starts_with("//"))
     {
         return IgnoredInstruction{};
     }
-- 
2.43.0


From b22e2ca67b6bfd2d9119ded0471ec9368dc1c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 07/52] fix: accept the documented -f noprogress value

---
 src/pipelines/slicer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 35c8b88..821e98a 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -301,7 +301,7 @@ namespace lsqecc
             auto mode_arg = parser.get<std::string>("f");
             if (mode_arg=="progress")
                 output_format_mode = OutputFormatMode::Progress;
-            else if (mode_arg=="noprogres")
+            else if (mode_arg=="noprogress")
                 output_format_mode = OutputFormatMode::NoProgress;
             else if (mode_arg=="machine")
                 output_format_mode = OutputFormatMode::Machine;
-- 
2.43.0


From f6c666ac1401ec6ba76e2e12eb4d81e55aa62f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 08/52] fix: let reset gates take part in the input dependency
 dag

get_operating_qubits only handled a reset as the target of a controlled gate.
---
 src/gates/gates.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index f22577f..b9353b6 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -161,14 +161,14 @@ tsl::ordered_set<QubitNum> get_operating_qubits(const Gate& gate)
                 [&](const RZ& tg){
                     res.insert(tg.target_qubit);
                 },
-                [&](const Reset& reset){
-                    res.insert(reset.target_qubit);
-                },
                 [&](const auto&){
                     LSTK_UNREACHABLE;
                 }
             }, g.target_gate);
         },
+        [&](const Reset& reset){
+            res.insert(reset.target_qubit);
+        },
         [&](const auto&){
             LSTK_UNREACHABLE;
         }
@@ -249,7 +249,7 @@ std::ostream& operator<<(std::ostream& os, const gates::Gate& gate)
             }, ctrld.target_gate);
         },
         [&](const Reset& reset){
-            os << "reset" << "q[" << reset.target_qubit << "]";
+            os << "reset q[" << reset.target_qubit << "];";
         }
     }, gate);
 
-- 
2.43.0


From 33dffabf50a830c59fed7c2c05452486b57f2f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 09/52] fix: do not erase from dependency sets while iterating
 over them

Removing a node with several edges, or expanding one with several proximate
dependencies, skipped or repeated entries.
---
 include/lsqecc/dag/dependency_dag.hpp | 20 +++++++-------------
 src/dag/directed_graph.cpp            |  4 ++--
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/include/lsqecc/dag/dependency_dag.hpp b/include/lsqecc/dag/dependency_dag.hpp
index b9f44d5..4ae7c74 100644
--- a/include/lsqecc/dag/dependency_dag.hpp
+++ b/include/lsqecc/dag/dependency_dag.hpp
@@ -118,19 +118,13 @@ struct DependencyDag
         
 
         // Now do the proximity bookkeeping for the extremes of the replacement
-        for (auto&[from, to]: proximate_dependencies_)
-        {
-            if (from == target)
-            {
-                proximate_dependencies_.erase({from, to});
-                proximate_dependencies_.insert({new_lables.back(), to});
-            }
-            if (to == target)
-            {
-                proximate_dependencies_.erase({from, to});
-                proximate_dependencies_.insert({from, new_lables.front()});
-            }
-        }
+        SetOfPairs<label_t, label_t> new_proximate_dependencies;
+        for (const auto& [from, to]: proximate_dependencies_)
+            new_proximate_dependencies.insert({
+                from == target ? new_lables.back() : from,
+                to == target ? new_lables.front() : to
+            });
+        proximate_dependencies_ = std::move(new_proximate_dependencies);
 
         if (proximate_heads_.contains(target))
         {
diff --git a/src/dag/directed_graph.cpp b/src/dag/directed_graph.cpp
index 2b4155c..e067377 100644
--- a/src/dag/directed_graph.cpp
+++ b/src/dag/directed_graph.cpp
@@ -39,10 +39,10 @@ void DirectedGraph::remove_node(label_t target)
     if(!edges_.count(target))
         throw std::runtime_error("Cannot remove non-existing node: " + std::to_string(target));
 
-    for(const auto& to : edges_.at(target))
+    for(const auto& to : successors(target))
         remove_edge(target, to);
 
-    for(const auto& from : back_edges_.at(target))
+    for(const auto& from : predecessors(target))
         remove_edge(from, target);
 
     edges_.erase(target);
-- 
2.43.0


From 97a00a36fb8fa645321c4531f53e02dd8f66665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 10/52] fix: do not report spurious (0,0) cells for patches of
 several cells

---
 src/patches/patches.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/patches/patches.cpp b/src/patches/patches.cpp
index 1beb25d..5235b6e 100644
--- a/src/patches/patches.cpp
+++ b/src/patches/patches.cpp
@@ -84,7 +84,8 @@ std::vector<Cell> SparsePatch::get_cells() const
     else
     {
         const auto& multi_cell_patch = std::get<MultipleCellsOccupiedByPatch>(cells);
-        std::vector<Cell> out_cells{multi_cell_patch.sub_cells.size()};
+        std::vector<Cell> out_cells;
+        out_cells.reserve(multi_cell_patch.sub_cells.size());
         for (const auto& cell: multi_cell_patch.sub_cells)
         {
             out_cells.push_back(cell.cell);
-- 
2.43.0


From f597b41e80ce3d437a7f30ee488f6ea0bd3c970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 11/52] fix: reject BellPairInit lines with fewer than two
 locations

---
 src/ls_instructions/ls_instructions_parse.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 27f2e77..92ff02a 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -127,6 +127,8 @@ LSInstruction parse_ls_instruction(std::string_view line)
             locs.push_back(PlaceNexTo{parse_patch_id(assoc[0]), PauliOperator_from_string(assoc[1])});
             counter++;
         }
+        if (locs.size() != 2)
+            throw InstructionParseException{"BellPairInit needs two locations."};
         return {BellPairInit{side1, side2, locs[0], locs[1]}};
     }      
     else if(instruction == "RequestYState" || instruction == "9")
-- 
2.43.0


From d705d9b39dc1b55927689a57bb1711317780671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 12/52] fix: keep the slice output valid JSON when nothing was
 sliced or slicing halted

A graceful halt wrote its message between the slices on stdout, and a run
without slices wrote a lone closing bracket.
---
 src/patches/dense_patch_computation.cpp | 4 ++--
 src/pipelines/slicer.cpp                | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 635aa0e..9f5b2a4 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1724,8 +1724,8 @@ DensePatchComputationResult run_through_dense_slices(
         catch (const std::exception& e)
         {
 
-            std::cout << "Encountered exception: " << e.what() << std::endl;
-            std::cout << "Halting slicing" << std::endl;
+            std::cerr << "Encountered exception: " << e.what() << std::endl;
+            std::cerr << "Halting slicing" << std::endl;
         }
     }
     else
diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 821e98a..6ddd624 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -690,7 +690,7 @@ namespace lsqecc
         }
         
         if(print_slices)
-            bulk_output_stream.get() << "]" <<std::endl;
+            bulk_output_stream.get() << (is_first_slice ? "[]" : "]") <<std::endl;
         if (lli_print_mode == LLIPrintMode::Sliced)
             bulk_output_stream.get() << std::endl;
 
-- 
2.43.0


From 54e183da8025bb16c4b0385281c43ca76b3d75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 13/52] fix: throw the boundary mismatch error of local two
 patch measurements

The error was constructed but never thrown.
---
 src/patches/dense_patch_computation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 9f5b2a4..9228748 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -831,12 +831,12 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
             if (((b1.boundary_type == BoundaryType::Rough) && (source_op != PauliOperator::X)) ||
                 ((b1.boundary_type == BoundaryType::Smooth) && (source_op != PauliOperator::Z)))
             {
-                std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
+                throw std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
             } 
             if (((b2.boundary_type == BoundaryType::Rough) && (target_op != PauliOperator::X)) ||
                 ((b2.boundary_type == BoundaryType::Smooth) && (target_op != PauliOperator::Z)))
             {
-                std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
+                throw std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
             } 
 
             // Apply TwoPatchMeasure local instruction
-- 
2.43.0


From 9336e4bfeacf65ffa94900501f03c1fd1c196ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 14/52] fix: do not hold a reference into records_ while
 scheduling dependents

Applying a dependent can append follow-up records, which reallocates records_ and left the loop over the
dependents iterating freed memory.
---
 src/scheduler/wave_scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheduler/wave_scheduler.cpp b/src/scheduler/wave_scheduler.cpp
index 1b2300b..c122bd4 100644
--- a/src/scheduler/wave_scheduler.cpp
+++ b/src/scheduler/wave_scheduler.cpp
@@ -173,7 +173,8 @@ size_t WaveScheduler::schedule_instructions(const std::vector<InstructionID>& in
 	
 void WaveScheduler::schedule_dependent_instructions(InstructionID instruction_id, const std::vector<LSInstruction>& followup_instructions, DenseSlice& slice, LSInstructionVisitor instruction_visitor, DensePatchComputationResult& res, bool proximate)
 {
-	auto& dependents = records_[instruction_id].dependents;
+	// A copy: scheduling a dependent may append records, which invalidates references into records_
+	const std::vector<InstructionID> dependents = records_[instruction_id].dependents;
 	
 	if (followup_instructions.empty())
 	{
-- 
2.43.0


From af124b1802305105e070aa5a9862ecdaea2877b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:44 +0000
Subject: [PATCH 15/52] fix: skip the cell of a measured out Y state when
 binding a Y state

The cell holds no patch any more and was dereferenced nevertheless.
---
 src/patches/dense_patch_computation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 9228748..9a8a0a6 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1343,7 +1343,8 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
                 double dist;
                 for (const Cell& cell : layout.predistilled_y_states())
                 {
-                    if (!slice.patch_at(cell)->id.has_value() && !slice.patch_at(cell)->is_active())
+                    // A Y state that was measured out leaves its cell empty
+                    if (slice.patch_at(cell) && !slice.patch_at(cell)->id.has_value() && !slice.patch_at(cell)->is_active())
                     {
                         dist = abs(cell.col - slice.get_cell_by_id(yr->near_patch).value().col) + abs(cell.row - slice.get_cell_by_id(yr->near_patch).value().row);
                         if (dist < min_dist)
-- 
2.43.0


From 921b148c081b6307751a3970dc693e56df0e2356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:44 +0000
Subject: [PATCH 16/52] fix: do not respawn a magic state over a patch that is
 being rotated

The busy region of the rotation was overwritten and clearing it aborted.
---
 src/patches/dense_patch_computation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 9a8a0a6..e013df8 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -131,7 +131,8 @@ void advance_slice(DenseSlice& slice, const Layout& layout)
             if (slice.time_to_next_magic_state_by_distillation_region[reserved_cell_index] == 0)
             {
                 if ((slice.patch_at(cell)->type != PatchType::PreparedState) &&
-                    (slice.patch_at(cell)->type != PatchType::Qubit))
+                    (slice.patch_at(cell)->type != PatchType::Qubit) &&
+                    (slice.patch_at(cell)->type != PatchType::Routing)) // e.g. the bound magic state is being rotated
                 {
                     SparsePatch magic_state_patch = LayoutHelpers::basic_square_patch(cell, std::nullopt, "Magic State");
                     magic_state_patch.type = PatchType::PreparedState;
-- 
2.43.0


From ed9c32e07ccd85a188cd61d4b05458bff9fd0154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:39 +0000
Subject: [PATCH 17/52] fix: keep both operators of a corner patch exposed when
 its boundaries are exchanged

---
 src/layout/dynamic_layouts/determine_exposed_operators.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/layout/dynamic_layouts/determine_exposed_operators.cpp b/src/layout/dynamic_layouts/determine_exposed_operators.cpp
index efc6ddd..1ee5c86 100644
--- a/src/layout/dynamic_layouts/determine_exposed_operators.cpp
+++ b/src/layout/dynamic_layouts/determine_exposed_operators.cpp
@@ -1,6 +1,8 @@
 #include <lsqecc/layout/dynamic_layouts/determine_exposed_operators.hpp>
 #include <lsqecc/patches/dense_slice.hpp>
 
+#include <utility>
+
 namespace lsqecc
 {
 
@@ -13,8 +15,8 @@ bool RotatableSingleQubitPatchExposedOperators::is_exposed(const PauliOperator o
 
 void RotatableSingleQubitPatchExposedOperators::rotate()
 {
-    x_exposed = !x_exposed;
-    z_exposed = !z_exposed;
+    // The boundaries trade places: a patch exposing both operators (or none) still does afterwards
+    std::swap(x_exposed, z_exposed);
 }
 
 tsl::ordered_map<PatchId, RotatableSingleQubitPatchExposedOperators> determine_exposed_core_operators(
-- 
2.43.0


From e953141c15c168377351b1612cd5791951ff337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:17 +0000
Subject: [PATCH 18/52] fix: track rotations already in the program when
 injecting boundary rotations

---
 src/ls_instructions/boundary_rotation_injection_stream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ls_instructions/boundary_rotation_injection_stream.cpp b/src/ls_instructions/boundary_rotation_injection_stream.cpp
index 4fb3a31..42fd58c 100644
--- a/src/ls_instructions/boundary_rotation_injection_stream.cpp
+++ b/src/ls_instructions/boundary_rotation_injection_stream.cpp
@@ -79,6 +79,11 @@ LSInstruction BoundaryRotationInjectionStream::get_next_instruction()
         } 
 
     }
+    else if (const auto* rotation = std::get_if<RotateSingleCellPatch>(&new_instruction.operation))
+    {
+        if (exposed_operators_.contains(rotation->target))
+            exposed_operators_.at(rotation->target).rotate();
+    }
     
     next_instructions_.push(new_instruction);
 
-- 
2.43.0


From a2067bed9464c72f20fccb7a5cc42c274665de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:41 +0000
Subject: [PATCH 19/52] fix: rotate a patch to expose the boundary an ancilla
 is placed at

---
 .../boundary_rotation_injection_stream.cpp             | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ls_instructions/boundary_rotation_injection_stream.cpp b/src/ls_instructions/boundary_rotation_injection_stream.cpp
index 42fd58c..0e052e2 100644
--- a/src/ls_instructions/boundary_rotation_injection_stream.cpp
+++ b/src/ls_instructions/boundary_rotation_injection_stream.cpp
@@ -79,6 +79,16 @@ LSInstruction BoundaryRotationInjectionStream::get_next_instruction()
         } 
 
     }
+    else if (const auto* init = std::get_if<PatchInit>(&new_instruction.operation))
+    {
+        // A patch placed next to another needs a free cell along the requested boundary
+        if (init->place_next_to && exposed_operators_.contains(init->place_next_to->target)
+                && !exposed_operators_.at(init->place_next_to->target).is_exposed(init->place_next_to->op))
+        {
+            next_instructions_.push({RotateSingleCellPatch{init->place_next_to->target}});
+            exposed_operators_.at(init->place_next_to->target).rotate();
+        }
+    }
     else if (const auto* rotation = std::get_if<RotateSingleCellPatch>(&new_instruction.operation))
     {
         if (exposed_operators_.contains(rotation->target))
-- 
2.43.0


From 0040fa14d32fc25ab07e5ac945e1bffe1acf2ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 20/52] fix: do not read other gates starting with rz (e.g.
 rzz) as rz

---
 src/gates/parse_gates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 17bbe32..d465e0d 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -184,7 +184,7 @@ gates::Gate parse_qasm_gate(const Line& line)
                 determine_cnot_ancilla_placement(line.annotations));
     }
 
-    if(line.instruction.substr(0,2) == "rz")
+    if(line.instruction == "rz" || line.instruction.starts_with("rz("))
     {
         if (get_arg_in_brackets(line.instruction) == "pi*-1")
             return gates::Z(get_index_arg(line.args.at(0)));
-- 
2.43.0


From 351301773a8586f2ce8b7966cbf30e2127a0a3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 21/52] fix: rz by an even multiple of pi is the identity, not
 Z

---
 src/gates/parse_gates.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index d465e0d..9d8fdc5 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -153,7 +153,7 @@ gates::Reset parse_reset(const std::vector<std::string_view>& args)
     return { std::string{parts[0]}, i };
 }
 
-gates::Gate parse_qasm_gate(const Line& line)
+ParseGateResult parse_qasm_gate(const Line& line)
 {
     if(line.instruction == "x") return gates::X(get_index_arg(line.args.at(0)));
     if(line.instruction == "y") return gates::Y(get_index_arg(line.args.at(0))); 
@@ -193,7 +193,9 @@ gates::Gate parse_qasm_gate(const Line& line)
 
         if(fraction.den == 1)
         {
-            // Multiples of PI are Z with a global phase
+            // Odd multiples of PI are Z with a global phase, even ones are the identity
+            if(fraction.num % 2 == 0)
+                return IgnoredInstruction{};
             return gates::Z(get_index_arg(line.args.at(0)));
         }
 
-- 
2.43.0


From 628b74a4ef829c8cf2be24f06eae0fc5da0b266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 22/52] fix: reject qubit indices outside the register

---
 src/gates/parse_gates.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 9d8fdc5..4f7255f 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -2,6 +2,7 @@
 
 #include <lstk/lstk.hpp>
 #include <iostream>
+#include <utility>
 #include <vector>
 #include <stdexcept>
 #include <iostream>
@@ -29,7 +30,7 @@ Integer try_parse_int(std::string_view sv)
 
     errno = 0;
     char* endptr;
-    Integer res = std::strtol(s.c_str(), &endptr, 10);
+    const long res = std::strtol(s.c_str(), &endptr, 10);
 
     if (errno != 0)
         throw GateParseException(lstk::cat("Could not parse ", s, "as string, strtol gave errno: ",
@@ -39,9 +40,12 @@ Integer try_parse_int(std::string_view sv)
     if (*endptr != '\0')
         throw GateParseException(lstk::cat("Could not parse ", s, ". Further characters after number"));
 
+    if (!std::in_range<Integer>(res))
+        throw GateParseException(lstk::cat("Could not parse ", s, ". Number out of range"));
+
 //    if(std::to_string(res) != s)
 //        throw GateParseException(std::string{"Could not parse "} + s + "as string, atol gave "+std::to_string(res));
-    return res;
+    return static_cast<Integer>(res);
 }
 
 Line split_instruction_and_args(std::string_view gate_str)
@@ -247,6 +251,8 @@ Qreg parse_qreg(std::vector<std::string_view>& args)
 
     auto parts = lstk::split_on(args[0], '[');
     QubitNum num = get_index_arg(args[0]);
+    if(num == 0)
+        throw GateParseException("Encountered qreg without qubits");
     return {
         .name=std::string{parts[0]},
         .size=num
@@ -311,6 +317,13 @@ void GateStreamFromFile::advance_gate()
                     throw GateParseException{
                             lstk::cat("Can only handle one qreg, found second at line ", line_number_)};
             }
+            else if(const auto* gate = std::get_if<gates::Gate>(&maybe_gate))
+            {
+                // Names outside the register may be those of ancillas
+                for(const QubitNum qubit : gates::get_operating_qubits(*gate))
+                    if(qreg_ && qubit >= qreg_->size)
+                        throw GateParseException{lstk::cat("Qubit ", qubit, " is outside the qreg")};
+            }
         }
         catch (const GateParseException& e)
         {
-- 
2.43.0


From 704c962ad30d90184f98c7e917f99c08029c3727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:35 +0000
Subject: [PATCH 23/52] fix: reject gates with the wrong number of operands or
 equal control and target

---
 src/gates/parse_gates.cpp | 54 +++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 4f7255f..bd99e48 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -86,6 +86,26 @@ QubitNum get_index_arg(std::string_view s)
 }
 
 
+QubitNum get_single_index_arg(const Line& line)
+{
+    if(line.args.size() != 1)
+        throw GateParseException{lstk::cat(line.instruction, " gate must have 1 arg")};
+    return get_index_arg(line.args.at(0));
+}
+
+
+std::pair<QubitNum, QubitNum> get_control_and_target_args(const Line& line)
+{
+    if(line.args.size() != 2)
+        throw GateParseException{lstk::cat(line.instruction, " gate must have 2 args")};
+    const QubitNum control = get_index_arg(line.args.at(0));
+    const QubitNum target = get_index_arg(line.args.at(1));
+    if(control == target)
+        throw GateParseException{lstk::cat(line.instruction, " gate must have distinct control and target")};
+    return {control, target};
+}
+
+
 std::string_view get_arg_in_brackets(std::string_view s)
 {
     return lstk::split_on(
@@ -159,31 +179,31 @@ gates::Reset parse_reset(const std::vector<std::string_view>& args)
 
 ParseGateResult parse_qasm_gate(const Line& line)
 {
-    if(line.instruction == "x") return gates::X(get_index_arg(line.args.at(0)));
-    if(line.instruction == "y") return gates::Y(get_index_arg(line.args.at(0))); 
-    if(line.instruction == "z") return gates::Z(get_index_arg(line.args.at(0)));
-    if(line.instruction == "s") return gates::S(get_index_arg(line.args.at(0)));
-    if(line.instruction == "t") return gates::T(get_index_arg(line.args.at(0)));
-    if(line.instruction == "h") return gates::H(get_index_arg(line.args.at(0)));
-    if(line.instruction == "sdg") return gates::SDg(get_index_arg(line.args.at(0)));
-    if(line.instruction == "tdg") return gates::TDg(get_index_arg(line.args.at(0)));
+    if(line.instruction == "x") return gates::X(get_single_index_arg(line));
+    if(line.instruction == "y") return gates::Y(get_single_index_arg(line)); 
+    if(line.instruction == "z") return gates::Z(get_single_index_arg(line));
+    if(line.instruction == "s") return gates::S(get_single_index_arg(line));
+    if(line.instruction == "t") return gates::T(get_single_index_arg(line));
+    if(line.instruction == "h") return gates::H(get_single_index_arg(line));
+    if(line.instruction == "sdg") return gates::SDg(get_single_index_arg(line));
+    if(line.instruction == "tdg") return gates::TDg(get_single_index_arg(line));
 
     if(line.instruction == "cx")
     {
-        if(line.args.size() != 2) throw GateParseException{lstk::cat("cx gate must have 2 args")};
+        const auto [control, target] = get_control_and_target_args(line);
         return gates::CNOT(
-                get_index_arg(line.args.at(1)),
-                get_index_arg(line.args.at(0)),
+                target,
+                control,
                 determine_cnot_type(line.annotations),
                 determine_cnot_ancilla_placement(line.annotations));
     }
 
     if(line.instruction == "cz")
     {
-        if(line.args.size() != 2) throw GateParseException{lstk::cat("cz gate must have 2 args")};
+        const auto [control, target] = get_control_and_target_args(line);
         return gates::CZ(
-                get_index_arg(line.args.at(1)),
-                get_index_arg(line.args.at(0)),
+                target,
+                control,
                 determine_cnot_type(line.annotations),
                 determine_cnot_ancilla_placement(line.annotations));
     }
@@ -191,7 +211,7 @@ ParseGateResult parse_qasm_gate(const Line& line)
     if(line.instruction == "rz" || line.instruction.starts_with("rz("))
     {
         if (get_arg_in_brackets(line.instruction) == "pi*-1")
-            return gates::Z(get_index_arg(line.args.at(0)));
+            return gates::Z(get_single_index_arg(line));
 
         Fraction fraction = parse_angle(get_arg_in_brackets(line.instruction));
 
@@ -200,11 +220,11 @@ ParseGateResult parse_qasm_gate(const Line& line)
             // Odd multiples of PI are Z with a global phase, even ones are the identity
             if(fraction.num % 2 == 0)
                 return IgnoredInstruction{};
-            return gates::Z(get_index_arg(line.args.at(0)));
+            return gates::Z(get_single_index_arg(line));
         }
 
         return gates::RZ{
-            get_index_arg(line.args[0]),
+            get_single_index_arg(line),
             fraction
             };
     }
-- 
2.43.0


From 52b6be16d5791e2eaa8d36e39b21d857eb634430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:18 +0000
Subject: [PATCH 24/52] fix: patch ids with a sign or trailing characters are
 errors, CRLF line ends are not

---
 src/ls_instructions/ls_instruction_stream.cpp | 2 ++
 src/ls_instructions/parse_utils.cpp           | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ls_instructions/ls_instruction_stream.cpp b/src/ls_instructions/ls_instruction_stream.cpp
index a72b382..57d78e8 100644
--- a/src/ls_instructions/ls_instruction_stream.cpp
+++ b/src/ls_instructions/ls_instruction_stream.cpp
@@ -15,6 +15,8 @@ void LSInstructionStreamFromFile::advance_instruction()
     while(!instructions_file_.eof() && line.size() ==0)
     {
         std::getline(instructions_file_, line);
+        if(line.ends_with('\r'))
+            line.pop_back();
         line_number_++;
     }
 
diff --git a/src/ls_instructions/parse_utils.cpp b/src/ls_instructions/parse_utils.cpp
index 4cac4e4..0db5fc8 100644
--- a/src/ls_instructions/parse_utils.cpp
+++ b/src/ls_instructions/parse_utils.cpp
@@ -10,9 +10,9 @@ namespace lsqecc
 
 PatchId parse_patch_id(const std::string_view & input)
 {
-    int out;
+    PatchId out;
     const std::from_chars_result result = std::from_chars(input.data(), input.data() + input.size(), out);
-    if(result.ec == std::errc::invalid_argument || result.ec == std::errc::result_out_of_range)
+    if(result.ec != std::errc{} || result.ptr != input.data() + input.size())
     {
         throw std::runtime_error(std::string{"Cannot parse patch id: "}+std::string{input});
     }
-- 
2.43.0


From 9dc90dbd2921c7b68c0c1f66aa88e03a6a312907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:18 +0000
Subject: [PATCH 25/52] fix: report the line of every parsing error

---
 src/gates/parse_gates.cpp                     | 2 +-
 src/ls_instructions/ls_instruction_stream.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index bd99e48..cc400b0 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -345,7 +345,7 @@ void GateStreamFromFile::advance_gate()
                         throw GateParseException{lstk::cat("Qubit ", qubit, " is outside the qreg")};
             }
         }
-        catch (const GateParseException& e)
+        catch (const std::exception& e)
         {
             throw std::runtime_error{
                     lstk::cat("Encountered gate parsing exception at line ", line_number_, ":\n", e.what())};
diff --git a/src/ls_instructions/ls_instruction_stream.cpp b/src/ls_instructions/ls_instruction_stream.cpp
index 57d78e8..096129f 100644
--- a/src/ls_instructions/ls_instruction_stream.cpp
+++ b/src/ls_instructions/ls_instruction_stream.cpp
@@ -29,7 +29,7 @@ void LSInstructionStreamFromFile::advance_instruction()
     next_instruction_ = [&](){
         try {
             return parse_ls_instruction(std::string_view{line});
-        } catch (const InstructionParseException& e) {
+        } catch (const std::exception& e) {
             throw std::runtime_error{
                     "Encountered parsing exception at line "s+std::to_string(line_number_)+":\n"s+e.what()};
         }
-- 
2.43.0


From ef5a10833c08c106c28cc2c5acd2f8da1a50f5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:33 +0000
Subject: [PATCH 26/52] fix: a second declaration of patch ids is an error

---
 include/lsqecc/ls_instructions/ls_instruction_stream.hpp | 1 +
 src/ls_instructions/ls_instruction_stream.cpp            | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/lsqecc/ls_instructions/ls_instruction_stream.hpp b/include/lsqecc/ls_instructions/ls_instruction_stream.hpp
index 9cce238..d60eb51 100644
--- a/include/lsqecc/ls_instructions/ls_instruction_stream.hpp
+++ b/include/lsqecc/ls_instructions/ls_instruction_stream.hpp
@@ -44,6 +44,7 @@ private:
     std::optional<LSInstruction> next_instruction_;
     tsl::ordered_set<PatchId> core_qubits_;
     size_t line_number_ = 0;
+    bool has_declaration_ = false;
 
     void advance_instruction();
 };
diff --git a/src/ls_instructions/ls_instruction_stream.cpp b/src/ls_instructions/ls_instruction_stream.cpp
index 096129f..1b6cc98 100644
--- a/src/ls_instructions/ls_instruction_stream.cpp
+++ b/src/ls_instructions/ls_instruction_stream.cpp
@@ -28,7 +28,10 @@ void LSInstructionStreamFromFile::advance_instruction()
 
     next_instruction_ = [&](){
         try {
-            return parse_ls_instruction(std::string_view{line});
+            auto instruction = parse_ls_instruction(std::string_view{line});
+            if(has_declaration_ && std::holds_alternative<DeclareLogicalQubitPatches>(instruction.operation))
+                throw InstructionParseException{"Double declaration of patch ids"};
+            return instruction;
         } catch (const std::exception& e) {
             throw std::runtime_error{
                     "Encountered parsing exception at line "s+std::to_string(line_number_)+":\n"s+e.what()};
@@ -46,9 +49,10 @@ LSInstructionStreamFromFile::LSInstructionStreamFromFile(std::istream& instructi
         throw std::runtime_error("No instructions");
 
     LSInstruction first_instruction = next_instruction_.value();
-    advance_instruction();
     if(!std::holds_alternative<DeclareLogicalQubitPatches>(first_instruction.operation))
         throw std::runtime_error("First instruction must be qubit declaration");
+    has_declaration_ = true;
+    advance_instruction();
 
     core_qubits_ = std::get<DeclareLogicalQubitPatches>(first_instruction.operation).patch_ids;
 }
-- 
2.43.0


From efc61792a580a5913a3fa0af862c4057b3600f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:33 +0000
Subject: [PATCH 27/52] fix: keep patch ids within int, a multi body
 measurement naming a patch twice is an error

---
 src/ls_instructions/ls_instructions_parse.cpp | 3 ++-
 src/ls_instructions/parse_utils.cpp           | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 92ff02a..aaa7974 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -22,7 +22,8 @@ tsl::ordered_map<PatchId, PauliOperator> parse_multi_body_measurement_dict(std::
         if (assoc.size()!=2)
             throw InstructionParseException{std::string{"MultiBody dict_pairs not in key pair format:"}+std::string{pair}};
 
-        ret.insert_or_assign(parse_patch_id(assoc[0]), PauliOperator_from_string(assoc[1]));
+        if(!ret.insert({parse_patch_id(assoc[0]), PauliOperator_from_string(assoc[1])}).second)
+            throw InstructionParseException{std::string{"MultiBody dict_pairs name a patch twice:"}+std::string{dict_arg}};
     }
     return ret;
 }
diff --git a/src/ls_instructions/parse_utils.cpp b/src/ls_instructions/parse_utils.cpp
index 0db5fc8..a52c6b2 100644
--- a/src/ls_instructions/parse_utils.cpp
+++ b/src/ls_instructions/parse_utils.cpp
@@ -10,9 +10,9 @@ namespace lsqecc
 
 PatchId parse_patch_id(const std::string_view & input)
 {
-    PatchId out;
+    int out;
     const std::from_chars_result result = std::from_chars(input.data(), input.data() + input.size(), out);
-    if(result.ec != std::errc{} || result.ptr != input.data() + input.size())
+    if(result.ec != std::errc{} || result.ptr != input.data() + input.size() || input.starts_with('-'))
     {
         throw std::runtime_error(std::string{"Cannot parse patch id: "}+std::string{input});
     }
-- 
2.43.0


From 26fece2313640d7acd58363f65e3c9cf87b3d8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:17 +0000
Subject: [PATCH 28/52] fix: refuse to bind a patch id that is already on the
 lattice

---
 src/patches/dense_patch_computation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index e013df8..2bfae4a 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -857,6 +857,9 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
     }
     else if (const auto* init = std::get_if<PatchInit>(&instruction.operation))
     {
+        if (slice.has_patch(init->target))
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", init->target, " already on lattice")), {}};
+
         auto location= init->place_next_to ?
                   place_ancilla_next_to(slice, init->place_next_to->target, init->place_next_to->op)
                 : find_free_ancilla_location(layout, slice);
@@ -1289,6 +1292,9 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         const auto& d_times = layout.distillation_times();
         if (!d_times.size()) throw std::logic_error("No distillation times");
 
+        if (slice.has_patch(mr->target))
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", mr->target, " already on lattice")), {}};
+
         if (slice.magic_states.size()>0)
         {
             std::optional<Cell> min_cell;
-- 
2.43.0


From cb789e7002b7e550afe4d24e9f520a8c1d667e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:01 +0000
Subject: [PATCH 29/52] fix: wait for the patch a state is requested next to
 instead of failing while it rotates

---
 src/patches/dense_patch_computation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 2bfae4a..c349317 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -859,6 +859,8 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
     {
         if (slice.has_patch(init->target))
             return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", init->target, " already on lattice")), {}};
+        if (init->place_next_to && !slice.has_patch(init->place_next_to->target))
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", init->place_next_to->target, " not on lattice")), {}};
 
         auto location= init->place_next_to ?
                   place_ancilla_next_to(slice, init->place_next_to->target, init->place_next_to->op)
@@ -1294,6 +1296,8 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
 
         if (slice.has_patch(mr->target))
             return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", mr->target, " already on lattice")), {}};
+        if (!slice.has_patch(mr->near_patch))
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", mr->near_patch, " not on lattice")), {}};
 
         if (slice.magic_states.size()>0)
         {
@@ -1337,6 +1341,8 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         // Otherwise, bind a new or existing Y state
         else 
         {
+            if (!slice.has_patch(yr->near_patch))
+                return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", yr->near_patch, " not on lattice")), {}};
 
             // Use pre-distilled y states if there are any 
 
-- 
2.43.0


From fcb90a9c8e56ebb9f8ab13ef1b24291043dc4970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:18 +0000
Subject: [PATCH 30/52] fix: read back the Pauli gates and resets that printing
 LLI emits

---
 src/ls_instructions/ls_instructions_parse.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index aaa7974..6e6dcc4 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -93,6 +93,18 @@ LSInstruction parse_ls_instruction(std::string_view line)
         auto op = PauliOperator_from_string(get_next_arg());
         return {SingleQubitOp{patch_id, static_cast<SingleQubitOp::Operator>(op)}};
     }
+    // How Paulis and resets are printed
+    else if (instruction == "XGate" || instruction == "YGate" || instruction == "ZGate")
+    {
+        auto patch_id = parse_patch_id(get_next_arg());
+        auto op = PauliOperator_from_string(instruction.substr(0,1));
+        return {SingleQubitOp{patch_id, static_cast<SingleQubitOp::Operator>(op)}};
+    }
+    else if (instruction == "Reset")
+    {
+        auto patch_id = parse_patch_id(get_next_arg());
+        return {PatchReset{patch_id}};
+    }
     else if (instruction == "HGate" || instruction == "5")
     {
         auto patch_id = parse_patch_id(get_next_arg());
-- 
2.43.0


From 6328094c05ccb0a115776d42cd1928f085a584dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:18 +0000
Subject: [PATCH 31/52] fix: reject LogicalPauli with I and placements with
 extra operators

---
 src/ls_instructions/ls_instructions_parse.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 6e6dcc4..d5ebfb6 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -65,6 +65,8 @@ LSInstruction parse_ls_instruction(std::string_view line)
         if(has_next_arg())
         {
             auto placement_info = lstk::split_on(get_next_arg(),':');
+            if (placement_info.size()!=2)
+                throw InstructionParseException{"Init placement not in patch:operator format"};
             place_next_to = PlaceNexTo{parse_patch_id(placement_info.at(0)),PauliOperator_from_string(placement_info.at(1))}; 
         }
 
@@ -91,6 +93,8 @@ LSInstruction parse_ls_instruction(std::string_view line)
     {
         auto patch_id = parse_patch_id(get_next_arg());
         auto op = PauliOperator_from_string(get_next_arg());
+        if (op == PauliOperator::I)
+            throw InstructionParseException{"LogicalPauli must be one of X, Y and Z"};
         return {SingleQubitOp{patch_id, static_cast<SingleQubitOp::Operator>(op)}};
     }
     // How Paulis and resets are printed
-- 
2.43.0


From 63f5cc45b020489cfc09dd7cbd489824513ef2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:58 +0000
Subject: [PATCH 32/52] fix: read annotations of gates on lines that end in
 CRLF

---
 src/gates/parse_gates.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index cc400b0..66d15f1 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -316,6 +316,8 @@ void GateStreamFromFile::advance_gate()
         while(!gate_file_.eof() && line.size() ==0)
         {
             std::getline(gate_file_, line);
+            if(line.ends_with('\r'))
+                line.pop_back();
             line_number_++;
         }
 
-- 
2.43.0


From c65486cfcf5404c9d939bbcec5b5e801f37bfa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:36 +0000
Subject: [PATCH 33/52] fix: reject crz gates with the wrong number of operands

---
 src/gates/parse_gates.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 66d15f1..520f662 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -232,9 +232,10 @@ ParseGateResult parse_qasm_gate(const Line& line)
     {
         if(line.instruction.substr(3,4) == "(pi/")
         {
+            const auto [control, target] = get_control_and_target_args(line);
             return gates::CRZ(
-                get_index_arg(line.args[1]),
-                get_index_arg(line.args[0]),
+                target,
+                control,
                 parse_angle(get_arg_in_brackets(line.instruction)),
                 determine_cnot_type(line.annotations),
                 determine_cnot_ancilla_placement(line.annotations));
-- 
2.43.0


From d44d8a11d15cb7c4efcefc20f3640b51a183a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:42 +0000
Subject: [PATCH 34/52] fix: order a requested state or placed patch after the
 patch it goes next to

---
 src/ls_instructions/ls_instructions_parse.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index d5ebfb6..8b5a88f 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -70,7 +70,12 @@ LSInstruction parse_ls_instruction(std::string_view line)
             place_next_to = PlaceNexTo{parse_patch_id(placement_info.at(0)),PauliOperator_from_string(placement_info.at(1))}; 
         }
 
-        return {.operation = PatchInit{patch_id, state, place_next_to}, .clients = {patch_id}};
+        // The patch the new one is placed next to has to be there (and keep its boundaries) until then
+        tsl::ordered_set<PatchId> clients;
+        if(place_next_to)
+            clients.insert(place_next_to->target);
+
+        return {.operation = PatchInit{patch_id, state, place_next_to}, .clients = clients};
     }
     else if(instruction == "MeasureSinglePatch" || instruction == "1")
     {
@@ -87,7 +92,7 @@ LSInstruction parse_ls_instruction(std::string_view line)
     {
         auto target = parse_patch_id(get_next_arg());
         auto near_patch = parse_patch_id(get_next_arg());
-        return {MagicStateRequest{target, near_patch}, MagicStateRequest::DEFAULT_WAIT};
+        return {.operation = MagicStateRequest{target, near_patch}, .wait_at_most_for = MagicStateRequest::DEFAULT_WAIT, .clients = {near_patch}};
     }
     else if (instruction == "LogicalPauli" || instruction == "4")
     {
@@ -152,7 +157,7 @@ LSInstruction parse_ls_instruction(std::string_view line)
     {
         auto target = parse_patch_id(get_next_arg());
         auto near_patch = parse_patch_id(get_next_arg());
-        return {YStateRequest{target, near_patch}, YStateRequest::DEFAULT_WAIT};
+        return {.operation = YStateRequest{target, near_patch}, .wait_at_most_for = YStateRequest::DEFAULT_WAIT, .clients = {near_patch}};
     }
     else if (instruction == "BellBasedCNOT" || instruction == "10")
     {
-- 
2.43.0


From 299dba9c6ab42d4633e53690833d1e27ba140590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:42 +0000
Subject: [PATCH 35/52] fix: hand proximity on to the rest of a chain when its
 first instruction is popped

---
 include/lsqecc/dag/dependency_dag.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/lsqecc/dag/dependency_dag.hpp b/include/lsqecc/dag/dependency_dag.hpp
index 4ae7c74..b4db206 100644
--- a/include/lsqecc/dag/dependency_dag.hpp
+++ b/include/lsqecc/dag/dependency_dag.hpp
@@ -89,6 +89,15 @@ struct DependencyDag
                 proximate_dependencies_.erase({predecessor, label});
             }
         }
+        // The rest of a proximate chain has to follow on the next slice
+        for(label_t successor: graph_.successors(label))
+        {
+            if(proximate_dependencies_.contains({label, successor}))
+            {
+                proximate_heads_.insert(successor);
+                proximate_dependencies_.erase({label, successor});
+            }
+        }
         graph_.remove_node(label);
 
         if(proximate_heads_.contains(label))
-- 
2.43.0


From 56d63f0d21aa1e39a0b669e0f4a25ed6081b4451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:53 +0000
Subject: [PATCH 36/52] fix: keep the text after the last replaced character in
 dag labels

---
 include/lstk/lstk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index 6e9f491..73cce23 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -216,6 +216,7 @@ static inline std::string str_replace(std::string_view s, char target, std::stri
         out << s.substr(0,s.find(target)) << replace_with;
         s = s.substr(s.find(target)+1,s.length());
     }
+    out << s;
     return out.str();
 }
 
-- 
2.43.0


From a17a0349a02dddb5ca23a3891d55c7751c8ca5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 37/52] fix: number operation ids from 1 on every run in the
 same process

---
 src/patches/dense_patch_computation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index c349317..6b81581 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1655,6 +1655,9 @@ DensePatchComputationResult run_through_dense_slices(
 
     DensePatchComputationResult res;
 
+    // Number operation ids from the start on every run, so that they don't depend on earlier runs in the same process
+    multi_body_measurement_op_id_counter = 1;
+
     // TODO move this out of here and into the pipeline, if possible. (might have to also take res out)
     auto start = lstk::now();
     if(timeout.has_value())
-- 
2.43.0


From 44cb4e385ca415d793bfa235c5e08130d1d28cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 38/52] fix: report errors quoting invalid UTF-8 through the
 string API instead of throwing

---
 src/pipelines/slicer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 6ddd624..4f5a3b3 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -730,7 +730,8 @@ namespace lsqecc
                 {"exit_code", exit_code}
         };
 
-        return json_res.dump(3);
+        // Error messages quote the input, which may not be valid UTF-8
+        return json_res.dump(3, ' ', false, nlohmann::json::error_handler_t::replace);
     }
 
 
-- 
2.43.0


From 22abe389bd5b2083e09ecba3dc6ee7e7b33f61fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 39/52] fix: turn a Y state so that its Z boundary faces the
 patch it is prepared for

---
 src/patches/dense_patch_computation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 6b81581..1cefad3 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1407,6 +1407,9 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
                         LocalInstruction::LocalLSInstruction local_instruction = {LocalInstruction::PrepareY{yr->target, z_neighbour.value()}};
                         yr->local_instruction = std::move(local_instruction);
                         InstructionApplicationResult r = try_apply_local_instruction(slice, local_instruction, layout, router);                       
+                        // The Z boundary of the Y state needs to face the target's, which is on its side when the target was rotated
+                        if (slice.get_boundary_between_or_fail(z_neighbour.value(), target_cell).get().boundary_type != BoundaryType::Smooth)
+                            slice.patch_at(z_neighbour.value())->boundaries.instant_rotate();
                         return {nullptr, {}};
                     }
 
-- 
2.43.0


From 62b114d40fb70e827b9df5374ea73d70d2ea410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:50 +0000
Subject: [PATCH 40/52] fix: schedule long chains of immediate instructions in
 a wave without recursing

---
 include/lsqecc/scheduler/wave_scheduler.hpp | 11 ++-
 src/scheduler/wave_scheduler.cpp            | 84 ++++++++++++---------
 2 files changed, 60 insertions(+), 35 deletions(-)

diff --git a/include/lsqecc/scheduler/wave_scheduler.hpp b/include/lsqecc/scheduler/wave_scheduler.hpp
index b2f2e29..5207251 100644
--- a/include/lsqecc/scheduler/wave_scheduler.hpp
+++ b/include/lsqecc/scheduler/wave_scheduler.hpp
@@ -40,6 +40,13 @@ private:
 		std::vector<InstructionID> dependents;
 	};
 
+	// An instruction to schedule once the one it came from was applied: a followup, or else a dependent
+	struct PendingInstruction
+	{
+		InstructionID id;
+		bool is_followup;
+	};
+
 	struct Wave
 	{
 		std::vector<InstructionID> heads;
@@ -65,8 +72,10 @@ private:
 	size_t schedule_instructions(const std::vector<InstructionID>& instruction_ids, DenseSlice& slice, LSInstructionVisitor instruction_visitor, DensePatchComputationResult& res, bool proximate, bool deferred);
 	void schedule_dependent_instructions(InstructionID instruction_id, const std::vector<LSInstruction>& followup_instructions, DenseSlice& slice, LSInstructionVisitor instruction_visitor, DensePatchComputationResult& res, bool proximate);
 	
+	void push_dependent_instructions(std::vector<PendingInstruction>& pending, InstructionID instruction_id, const std::vector<LSInstruction>& followup_instructions);
+
 	bool is_immediate(const LSInstruction& instruction);
-	bool try_schedule_immediately(InstructionID instruction_id, DenseSlice& slice, LSInstructionVisitor instruction_visitor, DensePatchComputationResult& res, bool proximate);
+	bool try_schedule_immediately(InstructionID instruction_id, DenseSlice& slice, LSInstructionVisitor instruction_visitor, DensePatchComputationResult& res, std::vector<PendingInstruction>& pending);
 	
 	bool local_instructions_;
 	bool allow_twists_;
diff --git a/src/scheduler/wave_scheduler.cpp b/src/scheduler/wave_scheduler.cpp
index c122bd4..e734ad8 100644
--- a/src/scheduler/wave_scheduler.cpp
+++ b/src/scheduler/wave_scheduler.cpp
@@ -173,33 +173,52 @@ size_t WaveScheduler::schedule_instructions(const std::vector<InstructionID>& in
 	
 void WaveScheduler::schedule_dependent_instructions(InstructionID instruction_id, const std::vector<LSInstruction>& followup_instructions, DenseSlice& slice, LSInstructionVisitor instruction_visitor, DensePatchComputationResult& res, bool proximate)
 {
-	// A copy: scheduling a dependent may append records, which invalidates references into records_
-	const std::vector<InstructionID> dependents = records_[instruction_id].dependents;
-	
-	if (followup_instructions.empty())
+	// A worklist rather than recursion: a chain of immediate instructions can be as long as the program.
+	// The instructions that become schedulable are on top, the first one to schedule last.
+	std::vector<PendingInstruction> pending;
+	push_dependent_instructions(pending, instruction_id, followup_instructions);
+
+	while (!pending.empty())
 	{
-		for (auto dependent : dependents)
+		const auto [id, is_followup] = pending.back();
+		pending.pop_back();
+
+		if (!is_followup)
 		{
-			assert(dependency_counts_[dependent] > 0);
-			--dependency_counts_[dependent];
-			if (dependency_counts_[dependent] == 0)
+			assert(dependency_counts_[id] > 0);
+			--dependency_counts_[id];
+			if (dependency_counts_[id] != 0)
+				continue;
+
+			if (proximate)
 			{
-				if (proximate)
-				{
-					auto& instruction = records_[dependent].instruction;
-					if (is_immediate(instruction))
-						current_wave_.heads.push_back(dependent);
-					else
-						next_wave_.heads.push_back(dependent);
-				}
-					
+				if (is_immediate(records_[id].instruction))
+					current_wave_.heads.push_back(id);
 				else
-				{
-					if (!try_schedule_immediately(dependent, slice, instruction_visitor, res, proximate))
-						next_wave_.heads.push_back(dependent);
-				}
+					next_wave_.heads.push_back(id);
+				continue;
 			}
 		}
+
+		if (!try_schedule_immediately(id, slice, instruction_visitor, res, pending))
+		{
+			if (is_followup)
+				next_wave_.proximate_heads_.push_back(id);
+			else
+				next_wave_.heads.push_back(id);
+		}
+	}
+}
+
+void WaveScheduler::push_dependent_instructions(std::vector<PendingInstruction>& pending, InstructionID instruction_id, const std::vector<LSInstruction>& followup_instructions)
+{
+	// A copy: appending records invalidates references into records_
+	const std::vector<InstructionID> dependents = records_[instruction_id].dependents;
+
+	if (followup_instructions.empty())
+	{
+		for (auto it = dependents.rbegin(); it != dependents.rend(); ++it)
+			pending.push_back({*it, false});
 	}
 	else
 	{
@@ -212,17 +231,14 @@ void WaveScheduler::schedule_dependent_instructions(InstructionID instruction_id
 				dependency_counts_[dependent] += dependency_delta;
 			}
 		}
-		
-	    for (auto&& followup : followup_instructions)
-	    {
-	    	auto followup_id = records_.size();
-	    	assert(records_.size() < UINT32_MAX);
-	    	records_.push_back({followup, dependents});
-	    	dependency_counts_.push_back(0);
-	    	
-	    	if (!try_schedule_immediately(followup_id, slice, instruction_visitor, res, proximate))
-	    		next_wave_.proximate_heads_.push_back(followup_id);
-	    }
+
+		for (auto it = followup_instructions.rbegin(); it != followup_instructions.rend(); ++it)
+		{
+			assert(records_.size() < UINT32_MAX);
+			pending.push_back({static_cast<InstructionID>(records_.size()), true});
+			records_.push_back({*it, dependents});
+			dependency_counts_.push_back(0);
+		}
 	}
 }
 	
@@ -264,7 +280,7 @@ bool WaveScheduler::is_immediate(const LSInstruction& instruction)
 		LSTK_UNREACHABLE;
 }
 	
-bool WaveScheduler::try_schedule_immediately(InstructionID instruction_id, DenseSlice& slice, LSInstructionVisitor instruction_visitor, DensePatchComputationResult& res, bool proximate)
+bool WaveScheduler::try_schedule_immediately(InstructionID instruction_id, DenseSlice& slice, LSInstructionVisitor instruction_visitor, DensePatchComputationResult& res, std::vector<PendingInstruction>& pending)
 {
 	auto& instruction = records_[instruction_id].instruction;
 	
@@ -296,7 +312,7 @@ bool WaveScheduler::try_schedule_immediately(InstructionID instruction_id, Dense
 		if (application_result.followup_instructions.size() == 1 && application_result.followup_instructions[0] == instruction) // instruction has rescheduled itself
 			next_wave_.proximate_heads_.push_back(instruction_id);
 		else
-			schedule_dependent_instructions(instruction_id, application_result.followup_instructions, slice, instruction_visitor, res, proximate);
+			push_dependent_instructions(pending, instruction_id, application_result.followup_instructions);
 		
 		return true;
 	}
-- 
2.43.0


From 2b05f9a660ad446cf7d1dc9483d1166e4e684e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:13 +0000
Subject: [PATCH 41/52] fix: refuse Bell pair sides that coincide or are
 already on the lattice

---
 src/ls_instructions/ls_instructions_parse.cpp |  4 ++++
 src/patches/dense_patch_computation.cpp       | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 8b5a88f..3a62689 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -151,6 +151,8 @@ LSInstruction parse_ls_instruction(std::string_view line)
         }
         if (locs.size() != 2)
             throw InstructionParseException{"BellPairInit needs two locations."};
+        if (side1 == side2)
+            throw InstructionParseException{"BellPairInit needs two different patches."};
         return {BellPairInit{side1, side2, locs[0], locs[1]}};
     }      
     else if(instruction == "RequestYState" || instruction == "9")
@@ -165,6 +167,8 @@ LSInstruction parse_ls_instruction(std::string_view line)
         auto target = parse_patch_id(get_next_arg());
         auto id1 = parse_patch_id(get_next_arg());
         auto id2 = parse_patch_id(get_next_arg());
+        if (control == target || id1 == id2)
+            throw InstructionParseException{"BellBasedCNOT needs two different operands and two different sides."};
         return {BellBasedCNOT{control, target, id1, id2}};
     }  
     else
diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 1cefad3..d856c81 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -889,6 +889,10 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         {
             if (!bell_init->counter.has_value())
             {
+                for (auto side : {bell_init->side1, bell_init->side2})
+                    if (slice.has_patch(side))
+                        return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", side, " already on lattice")), {}};
+
                 auto routing_region = router.find_routing_ancilla(slice, bell_init->loc1.target, bell_init->loc1.op, bell_init->loc2.target, bell_init->loc2.op);
                 if(!routing_region)
                 {
@@ -939,6 +943,14 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         if (!slice.has_patch(bell_cnot->target)) 
             return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", bell_cnot->target, " not on lattice")), {}};
         
+        // The names of the two sides are only free to use until the instruction is under way
+        if (!bell_cnot->route.has_value() && !bell_cnot->counter_pairs.has_value())
+        {
+            for (auto side : {bell_cnot->side1, bell_cnot->side2})
+                if (slice.has_patch(side))
+                    return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", side, " already on lattice")), {}};
+        }
+
         auto control_patch = slice.get_patch_by_id(bell_cnot->control);
         auto target_patch = slice.get_patch_by_id(bell_cnot->target);
         
-- 
2.43.0


From 90ebeebf032b9f81b7ac3c752a7ca1928eb32011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:51 +0000
Subject: [PATCH 42/52] fix: end with an error when the input cannot be read
 instead of looping

---
 src/gates/parse_gates.cpp                     | 5 ++++-
 src/ls_instructions/ls_instruction_stream.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 520f662..004aa9f 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -314,7 +314,7 @@ void GateStreamFromFile::advance_gate()
     while(!std::holds_alternative<gates::Gate>(maybe_gate))
     {
         std::string line;
-        while(!gate_file_.eof() && line.size() ==0)
+        while(gate_file_.good() && line.size() ==0)
         {
             std::getline(gate_file_, line);
             if(line.ends_with('\r'))
@@ -322,6 +322,9 @@ void GateStreamFromFile::advance_gate()
             line_number_++;
         }
 
+        if(gate_file_.bad())
+            throw std::runtime_error{"Could not read the gate file"};
+
         if(line.size()==0)
         {
             next_gate_ = std::nullopt;
diff --git a/src/ls_instructions/ls_instruction_stream.cpp b/src/ls_instructions/ls_instruction_stream.cpp
index 1b6cc98..500e582 100644
--- a/src/ls_instructions/ls_instruction_stream.cpp
+++ b/src/ls_instructions/ls_instruction_stream.cpp
@@ -12,7 +12,7 @@ using namespace std::string_literals;
 void LSInstructionStreamFromFile::advance_instruction()
 {
     std::string line;
-    while(!instructions_file_.eof() && line.size() ==0)
+    while(instructions_file_.good() && line.size() ==0)
     {
         std::getline(instructions_file_, line);
         if(line.ends_with('\r'))
@@ -20,6 +20,9 @@ void LSInstructionStreamFromFile::advance_instruction()
         line_number_++;
     }
 
+    if(instructions_file_.bad())
+        throw std::runtime_error{"Could not read the instruction file"};
+
     if(line.size()==0)
     {
         next_instruction_ = std::nullopt;
-- 
2.43.0


From 9eb1b21c8b27dd6c6ad02c32daefe577b3a93183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:39 +0000
Subject: [PATCH 43/52] fix: report output that cannot be opened or written

---
 src/pipelines/slicer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 4f5a3b3..7860603 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -292,6 +292,11 @@ namespace lsqecc
         if(parser.exists("o"))
         {
             _ofstream_store = std::make_unique<std::ofstream>(parser.get<std::string>("o"));
+            if(_ofstream_store->fail())
+            {
+                err_stream << "Could not open output file: " << parser.get<std::string>("o") << std::endl;
+                return -1;
+            }
             bulk_output_stream = std::ref(*_ofstream_store);
         }
 
@@ -694,6 +699,12 @@ namespace lsqecc
         if (lli_print_mode == LLIPrintMode::Sliced)
             bulk_output_stream.get() << std::endl;
 
+        if(bulk_output_stream.get().fail())
+        {
+            err_stream << "Could not write all of the output" << std::endl;
+            return -1;
+        }
+
         return 0;
     }
 
-- 
2.43.0


From ebde9829b88abb58c781ca083cb0c4cf09e896af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:52 +0000
Subject: [PATCH 44/52] fix: run the second phase of an EDPC CNOT when it
 consists of a single layer

---
 src/patches/dense_patch_computation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index d856c81..d4122db 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1183,7 +1183,7 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
 
                     // If this is the final phase, the instruction has been fully applied 
                     if ((phase == bell_cnot->local_instruction_sets.value().size() - 1) ||
-                        ((phase == 1) && (bell_cnot->local_instruction_sets.value()[2].size() == 0)))
+                        ((phase == 1) && (bell_cnot->local_instruction_sets.value()[2].size() == 0) && (bell_cnot->local_instruction_sets.value()[3].size() == 0)))
                     {
                         return {nullptr, {}};
                     }
-- 
2.43.0


From 5827eed8a1533adc98082d5a6eb46536e2dd9485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:46 +0000
Subject: [PATCH 45/52] fix: label crossing paths of an EDPC wave consistently,
 or leave a path for a later wave

---
 include/lsqecc/patches/dense_slice.hpp  |   2 +-
 src/patches/dense_patch_computation.cpp |  13 +++
 src/patches/dense_slice.cpp             | 127 ++++++++----------------
 3 files changed, 57 insertions(+), 85 deletions(-)

diff --git a/include/lsqecc/patches/dense_slice.hpp b/include/lsqecc/patches/dense_slice.hpp
index c9e76dc..012b68c 100644
--- a/include/lsqecc/patches/dense_slice.hpp
+++ b/include/lsqecc/patches/dense_slice.hpp
@@ -72,7 +72,7 @@ struct DenseSlice : public Slice
 
     SurfaceCodeTimestep time_to_next_magic_state(size_t distillation_region_id) const override;
 
-    void flip_crossing_chain(const Cell& crossing_cell, CellDirection dir);
+    void flip_crossing_chain(const Cell& crossing_cell, const Cell& from);
 
     BoundaryType mark_boundaries_for_crossing_cell(DensePatch& dp, const SingleCellOccupiedByPatch& p, const Cell& prev);
 };
diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index d4122db..c3219c1 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -993,6 +993,19 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
                                         .right= {BoundaryType::None, false}},
                                         slice.get_cell_by_id(bell_cnot->target).value()});
 
+                    // The labels of crossing paths cannot always be made consistent. A path that cannot be labelled together with
+                    // those already found in this wave is left for a later one, so labels are tried out on a copy first.
+                    try
+                    {
+                        DenseSlice trial_slice{slice};
+                        RoutingRegion trial_region{*routing_region};
+                        mark_routing_region(trial_slice, trial_region, PatchActivity::EDPC);
+                    }
+                    catch (const std::logic_error& e)
+                    {
+                        return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; ", e.what())), {}};
+                    }
+
                     mark_routing_region(slice, *routing_region, PatchActivity::EDPC);      
 
                     // Store routing region within the instruction (importantly, boundaries of cells in this routing region object have not been re-labeled!)
diff --git a/src/patches/dense_slice.cpp b/src/patches/dense_slice.cpp
index 6a1d72e..aa34ddb 100644
--- a/src/patches/dense_slice.cpp
+++ b/src/patches/dense_slice.cpp
@@ -272,69 +272,48 @@ SurfaceCodeTimestep DenseSlice::time_to_next_magic_state(size_t distillation_reg
     return time_to_next_magic_state_by_distillation_region[distillation_region_id];
 }
 
-// Recursively flip all boundaries for an input crossing cell in EDPC. 'dir' is the direction that we came from.
-void DenseSlice::flip_crossing_chain(const Cell& crossing_cell, CellDirection dir)
+// Flip all boundaries of an input crossing cell in EDPC, and of all crossing cells connected to it. 'from' is the cell that we came from,
+// whose boundary with the crossing cell should have already been flipped.
+void DenseSlice::flip_crossing_chain(const Cell& crossing_cell, const Cell& from)
 {
     if (!EDPC_crossing_vertices.count(crossing_cell))
         throw std::invalid_argument("DenseSlice::flip_crossing_chain: input cell must be a crossing cell.");
 
-    // Get associated patch
-    std::optional<DensePatch>& patch = patch_at(crossing_cell);
-    if (patch.has_value())
-    {  
-        
-        // Get boundaries and neighbors
-        std::vector<Boundary*> boundary_ptrs = {&patch.value().boundaries.top, &patch.value().boundaries.bottom, &patch.value().boundaries.left, &patch.value().boundaries.right};
-        std::vector<std::optional<Cell>> neighbors;
-        std::vector<CellDirection> cell_directions = {CellDirection::top, CellDirection::bottom, CellDirection::left, CellDirection::right};
-        for (CellDirection dir_ : cell_directions)
-            neighbors.push_back(get_directional_neighbor_within_slice(crossing_cell, dir_));
-
-        // Loop over boundaries
-        size_t counter = 0;
-        for (Boundary* boundary : boundary_ptrs)
-        {
-            if (neighbors[counter].has_value())
-            {
-                if ((boundary->boundary_type == BoundaryType::Reserved_Label1) || (boundary->boundary_type == BoundaryType::Reserved_Label2))   
-                {
+    // Boundaries are flipped when the first of their two cells is visited
+    std::set<Cell> visited;
+    std::vector<Cell> to_visit{crossing_cell};
+    while (!to_visit.empty())
+    {
+        const Cell cell = to_visit.back();
+        to_visit.pop_back();
+        if (!visited.insert(cell).second)
+            continue;
 
-                    // Flip boundary and conjugate boundary except those corresp. to the neighbor we came from (those should have already been flipped)
-                    if (cell_directions[counter] != (!dir))
-                    {
-                        boundary->boundary_type = !boundary->boundary_type;
-                        auto conjugate_bdry = get_boundary_between(neighbors[counter].value(), crossing_cell);
-                        if (conjugate_bdry.has_value()) {
-                            conjugate_bdry.value().get().boundary_type = !conjugate_bdry.value().get().boundary_type;
-                        } 
-                    }
+        if (!patch_at(cell).has_value())
+            throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must have an associated dense patch on the slice.");
 
-                } 
+        for (CellDirection dir : {CellDirection::top, CellDirection::bottom, CellDirection::left, CellDirection::right})
+        {
+            const std::optional<Cell> neighbor = get_directional_neighbor_within_slice(cell, dir);
+            if (!neighbor.has_value())
+                throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must be interior and have four neighbors.");
 
-                else
-                {
-                    throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must have all reserved boundaries.");
-                } 
-            }
+            if (visited.count(*neighbor) || (cell == crossing_cell && *neighbor == from))
+                continue;
 
-            else
-            {
-                throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must be interior and have four neighbors.");
-            }
+            if (!is_boundary_reserved(cell, *neighbor))
+                throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must have all reserved boundaries.");
 
-            counter++;
-        }
-    }
+            auto boundary = get_boundary_between(cell, *neighbor);
+            boundary->get().boundary_type = !boundary->get().boundary_type;
+            auto conjugate_bdry = get_boundary_between(*neighbor, cell);
+            if (conjugate_bdry.has_value())
+                conjugate_bdry->get().boundary_type = !conjugate_bdry->get().boundary_type;
 
-    else
-    {
-        throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must have an associated dense patch on the slice.");
+            if (*neighbor != from && EDPC_crossing_vertices.count(*neighbor))
+                to_visit.push_back(*neighbor);
+        }
     }
-
-    // Assuming consistency conditions from mark_boundaries_for_crossing_cell have been met and remain unchanged for every crossing cell, we only need to propagate linearly and flip all boundaries
-    std::optional<Cell> next_crossing_cell = get_directional_neighbor_within_slice(crossing_cell, dir);
-    if (next_crossing_cell.has_value() && EDPC_crossing_vertices.count(next_crossing_cell.value()))
-        flip_crossing_chain(next_crossing_cell.value(), dir);
 }
 
 BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const SingleCellOccupiedByPatch& p, const Cell& prev) 
@@ -352,11 +331,6 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
     // Check if the previous cell routed through was a crossing cell
     bool prev_cell_was_crossing_vertex = EDPC_crossing_vertices.count(prev);
 
-    // Create tracker for number of crossing neighbors
-    size_t num_crossing_neighbors = 0;
-    if (prev_cell_was_crossing_vertex)
-        num_crossing_neighbors++;
-
     // Get boundary type with the previous cell
     auto prev_bdry = get_boundary_between(p.cell, prev);
 
@@ -370,7 +344,6 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
 
     // Loop over boundary pointers
     size_t counter = 0;
-    std::vector<size_t> crossing_indices;
     Boundary* tmp = nullptr;
     size_t num_reserved_edges_found = 0;
     for (Boundary* boundary : boundary_ptrs) 
@@ -385,12 +358,10 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
                 // Track # found reserved edges for later consistency checks
                 num_reserved_edges_found++;
 
-                // Ignore the previously-routed cell but track its index
+                // Ignore the previously-routed cell
                 if (neighbors[counter].value() == prev)
                 {
-                    if (prev_cell_was_crossing_vertex) 
-                        crossing_indices.push_back(counter);
-                    else
+                    if (!prev_cell_was_crossing_vertex) 
                         throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: previously-routed cell not in crossing vertices but its corresponding boundary already reserved.");
 
                     counter++;
@@ -417,11 +388,7 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
 
                         // If the corresp. neighbor is also a crossing cell then we (generically) need to propagate the boundary flip through a connected chain of crossings
                         if (EDPC_crossing_vertices.count(neighbors[counter].value()))
-                        {
-                            crossing_indices.push_back(counter);
-                            num_crossing_neighbors++;
-                            flip_crossing_chain(neighbors[counter].value(), cell_directions[counter]);
-                        }
+                            flip_crossing_chain(neighbors[counter].value(), p.cell);
 
                     }
 
@@ -446,11 +413,7 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
 
                     // If the corresp. neighbor is also a crossing cell then we (generically) need to propagate the boundary flip through a connected chain of crossings
                     if (EDPC_crossing_vertices.count(neighbors[counter].value()))
-                    {
-                        crossing_indices.push_back(counter);
-                        num_crossing_neighbors++;
-                        flip_crossing_chain(neighbors[counter].value(), cell_directions[counter]);
-                    }
+                        flip_crossing_chain(neighbors[counter].value(), p.cell);
 
                 }
 
@@ -474,18 +437,6 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
 
     } 
 
-    // Consistency check: this crossing vertex can only be adjacent to up to two other crossing vertices
-    if (num_crossing_neighbors > 2)
-        throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: a given crossing cell can only have two neighbors that are themselves crossing cells.");
-
-    // Consistency check: two neighboring crossing cells to a crossing cell must be across from each other
-    if (num_crossing_neighbors == 2)
-    {
-        assert(crossing_indices.size() == 2);
-        if (cell_directions[crossing_indices[0]] != (!cell_directions[crossing_indices[1]]))
-            throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: two neighboring crossing cells to a crossing cell must be across from one another.");
-    }
-
     // Consistency checks on number of reserved edges found
     if (num_reserved_edges_found == 4)
         throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: too many reserved edges found.");
@@ -499,6 +450,14 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
     else if (num_reserved_edges_found < 2)
         throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: too few reserved edges found (< 2).");
 
+    // Consistency check: a chain of crossings can lead back to this cell, so that flipping one of its boundaries flips another one
+    for (size_t k=0; k<boundary_ptrs.size(); k++)
+    {
+        if (boundary_ptrs[k]->boundary_type != BoundaryType::None &&
+            (boundary_ptrs[k]->boundary_type == tmp->boundary_type) == (neighbors[k].value() == prev))
+            throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: boundary labels cannot be made consistent.");
+    }
+
     // The label that we place is always opposite the one present
     BoundaryType label_to_place = !tmp->boundary_type;
 
-- 
2.43.0


From 7a6cd22bf5a474e4d02610db0a0fa74c4ff8801d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:26 +0000
Subject: [PATCH 46/52] fix: a bare --condensed packs the layout as documented

---
 src/pipelines/slicer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 7860603..34e4f6d 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -492,7 +492,7 @@ namespace lsqecc
                     num_lanes = parser.get<size_t>("numlanes");
                 
                 if(parser.exists("condensed"))
-                    condensed = parser.get<bool>("condensed");
+                    condensed = parser.get<std::string>("condensed").empty() || parser.get<bool>("condensed");
                 
                 if ((pipeline_mode == PipelineMode::EDPC) &&
                     (compile_mode == CompilationMode::Local) &&
-- 
2.43.0


From 8ef28be2164d865b4d83c15ace5dec859edf52f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:02 +0000
Subject: [PATCH 47/52] fix: report option values that are not numbers instead
 of reading them as 0

---
 src/pipelines/slicer.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 34e4f6d..4a19dba 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -26,6 +26,7 @@
 #include <nlohmann/json.hpp>
 
 #include <algorithm>
+#include <charconv>
 #include <iostream>
 #include <string_view>
 #include <sstream>
@@ -35,6 +36,7 @@
 #include <chrono>
 
 #include <string>
+#include <system_error>
 
 
 #define CONSOLE_HELP_NEWLINE_ALIGN "\n                           "
@@ -93,11 +95,22 @@ namespace lsqecc
         Catalytic, Twists
     };
 
+    template<class T>
+    T get_unsigned_number(argparse::ArgumentParser& parser, const std::string& name)
+    {
+        const auto arg = parser.get<std::string>(name);
+        T value{};
+        const auto [end, error] = std::from_chars(arg.data(), arg.data() + arg.size(), value);
+        if (error != std::errc{} || end != arg.data() + arg.size())
+            throw std::runtime_error("Invalid number for option " + name + ": " + arg);
+        return value;
+    }
+
     DistillationOptions make_distillation_options(argparse::ArgumentParser& parser)
     {
         DistillationOptions distillation_options;
         if(parser.exists("disttime"))
-            distillation_options.distillation_time = parser.get<size_t>("disttime");
+            distillation_options.distillation_time = get_unsigned_number<SurfaceCodeTimestep>(parser, "disttime");
         if(parser.exists("nostagger"))
             distillation_options.staggered = false;
         return distillation_options;
@@ -489,10 +502,10 @@ namespace lsqecc
                 bool factories_explicit = false;
                 
                 if(parser.exists("numlanes"))
-                    num_lanes = parser.get<size_t>("numlanes");
+                    num_lanes = get_unsigned_number<size_t>(parser, "numlanes");
                 
                 if(parser.exists("condensed"))
-                    condensed = parser.get<std::string>("condensed").empty() || parser.get<bool>("condensed");
+                    condensed = parser.get<std::string>("condensed").empty() || get_unsigned_number<uint32_t>(parser, "condensed") != 0;
                 
                 if ((pipeline_mode == PipelineMode::EDPC) &&
                     (compile_mode == CompilationMode::Local) &&
@@ -561,7 +574,7 @@ namespace lsqecc
         }
 
         auto timeout = parser.exists("t") ?
-                       std::make_optional(std::chrono::seconds{parser.get<uint32_t>("t")})
+                       std::make_optional(std::chrono::seconds{get_unsigned_number<uint32_t>(parser, "t")})
                                           : std::nullopt;
 
 
-- 
2.43.0


From 2cfac775814960f26886514f70e6acde219aced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:06 +0000
Subject: [PATCH 48/52] fix: place the edge cells of rows without qubits in
 condensed EDPC layouts

---
 src/layout/dynamic_layouts/edpc_layout.cpp | 48 ++++++++++++----------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/layout/dynamic_layouts/edpc_layout.cpp b/src/layout/dynamic_layouts/edpc_layout.cpp
index de056f2..aec8334 100644
--- a/src/layout/dynamic_layouts/edpc_layout.cpp
+++ b/src/layout/dynamic_layouts/edpc_layout.cpp
@@ -83,38 +83,42 @@ std::unique_ptr<Layout> make_edpc_layout(size_t num_core_qubits, size_t num_lane
                     {
                         grid[i][j] = AsciiLayoutSpec::CellType::LogicalComputationQubit_StandardBorderOrientation;
                         logical_placed++;
-                        
-                        if (condensed) 
+                    }
+
+                    // Blocks keep their place when there are no qubits left for them, so that the cells on the edges line up
+                    if (condensed) 
+                    {
+                        const bool pair_of_cols = j < grid[i].size()- t_distillation_region_cols - (num_lanes+1) - 1;
+                        const bool pair_of_rows = i < grid.size() - t_distillation_region_rows - (num_lanes+1) - 1;
+
+                        if (pair_of_cols)
                         {
-                            if ((logical_placed < num_core_qubits) && (j < grid[i].size()- t_distillation_region_cols - (num_lanes+1) - 1))
+                            if (logical_placed < num_core_qubits)
                             {
                                 grid[i][j+1] = AsciiLayoutSpec::CellType::LogicalComputationQubit_StandardBorderOrientation;
                                 logical_placed++;
-                                condense_shift_horiz = 1;
-                                cols_lost++;
                             }
-                            if ((logical_placed < num_core_qubits) && (i < grid.size() - t_distillation_region_rows - (num_lanes+1) - 1))
+                            condense_shift_horiz = 1;
+                            cols_lost++;
+                        }
+                        if (pair_of_rows)
+                        {
+                            if (logical_placed < num_core_qubits)
                             {
                                 grid[i+1][j] = AsciiLayoutSpec::CellType::LogicalComputationQubit_StandardBorderOrientation;
                                 logical_placed++;
-                                condense_shift_vert = 1;
-                                row_lost = 1;
                             }
-                            if ((logical_placed < num_core_qubits) && (j < grid[i].size()- t_distillation_region_cols - (num_lanes+1) - 1) &&
-                                (i < grid.size() - t_distillation_region_rows - (num_lanes+1) - 1))
-                            {
-                                grid[i+1][j+1] = AsciiLayoutSpec::CellType::LogicalComputationQubit_StandardBorderOrientation;
-                                logical_placed++;
-                            }
-
-                            if (j >= grid[i].size()- t_distillation_region_cols - (num_lanes+1) - 1) {condense_shift_horiz = 0;}
-                            if (i >= grid.size() - t_distillation_region_rows - (num_lanes+1) - 1) {condense_shift_vert = 0;}
+                            condense_shift_vert = 1;
+                            row_lost = 1;
                         }
-                    }
-                    else 
-                    {
-                        if (j >= grid[i].size()- t_distillation_region_cols - (num_lanes+1) - 1) {condense_shift_horiz = 0;}
-                        if (i >= grid.size() - t_distillation_region_rows - (num_lanes+1) - 1) {condense_shift_vert = 0;}
+                        if (pair_of_cols && pair_of_rows && (logical_placed < num_core_qubits))
+                        {
+                            grid[i+1][j+1] = AsciiLayoutSpec::CellType::LogicalComputationQubit_StandardBorderOrientation;
+                            logical_placed++;
+                        }
+
+                        if (!pair_of_cols) {condense_shift_horiz = 0;}
+                        if (!pair_of_rows) {condense_shift_vert = 0;}
                     }
                 }
             }
-- 
2.43.0


From 804ea75965be7c6355aa265d7c82e1978d7cac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:18 +0000
Subject: [PATCH 49/52] fix: read the operand of rz gates that are the identity
 too

---
 src/gates/parse_gates.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 004aa9f..c84c372 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -218,9 +218,10 @@ ParseGateResult parse_qasm_gate(const Line& line)
         if(fraction.den == 1)
         {
             // Odd multiples of PI are Z with a global phase, even ones are the identity
+            const QubitNum target = get_single_index_arg(line);
             if(fraction.num % 2 == 0)
                 return IgnoredInstruction{};
-            return gates::Z(get_single_index_arg(line));
+            return gates::Z(target);
         }
 
         return gates::RZ{
-- 
2.43.0


From 9d57bfaa00f962800dfa7d8b01402ef8135c9208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:18 +0000
Subject: [PATCH 50/52] fix: refuse MultiBodyMeasure lines without patches

---
 src/ls_instructions/ls_instructions_parse.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 3a62689..bc2c2a3 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -25,6 +25,8 @@ tsl::ordered_map<PatchId, PauliOperator> parse_multi_body_measurement_dict(std::
         if(!ret.insert({parse_patch_id(assoc[0]), PauliOperator_from_string(assoc[1])}).second)
             throw InstructionParseException{std::string{"MultiBody dict_pairs name a patch twice:"}+std::string{dict_arg}};
     }
+    if(ret.empty())
+        throw InstructionParseException{"MultiBody dict_pairs without patches"};
     return ret;
 }
 
-- 
2.43.0


From 2f682fd8868482c1900a97aa008b4ddd03b831dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:31 +0000
Subject: [PATCH 51/52] fix: do not measure out a patch that is already
 measured out

---
 src/patches/dense_patch_computation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index c3219c1..2e6ee1b 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -762,6 +762,8 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
             return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", s->target, " not on lattice")), {}};
 
         auto& target_patch = maybe_target_patch->get();
+        if (target_patch.activity == PatchActivity::Measurement)
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", s->target, " is already measured out")), {}};
         target_patch.activity = PatchActivity::Measurement;
         
         return {nullptr, {}};
-- 
2.43.0


From 7586abf39b6889aaf4c0d34ca68d0e25ac576c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 52/52] fix: print the sign of a negative rotation angle

rz(-3*pi/8) was shown as rz(3pi/8) in the gate graph.
---
 src/gates/gates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index b9353b6..bf0b155 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -220,7 +220,7 @@ std::ostream& operator<<(std::ostream& os, const gates::Gate& gate)
             }() << " q[" << gate.target_qubit << "];";
         },
         [&](const RZ& rz){
-            os << "rz("<<rz.pi_fraction.num<<"pi/"<<rz.pi_fraction.den<<") q["<<rz.target_qubit<<"];";
+            os << "rz("<<(rz.pi_fraction.is_negative ? "-" : "")<<rz.pi_fraction.num<<"pi/"<<rz.pi_fraction.den<<") q["<<rz.target_qubit<<"];";
         },
         [&](const ControlledGate& ctrld){
             return std::visit(lstk::overloaded{
-- 
2.43.0

