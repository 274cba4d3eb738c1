#!/usr/bin/env python3
"""Writes properties.jsonl (kept as data here so that statements stay readable in review)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files, "mechanism": [{"name": " ".join(mechanism.split()), "where": files[0]}],
                          "observe_at": [" ".join(observe.split())], "hook_needed": None}})


S = "src/"
I = "include/lsqecc/"

p("C01", "No memory error, undefined behaviour or crash on any input",
  """For every command line, gate program, LLI program and layout file, well formed or not, a run of the slicer (also several runs in one process) ends by
  returning an exit code or by throwing a std::exception: it never commits a memory error or undefined behaviour
  and is never ended by a signal or an assertion.""",
  ["inputs", "configurations"], """all QASM/LLI/layout texts (valid, mutated, hostile), all pipelines, layouts, routers, flags; also several runs in one process""",
  "the tests feed a few dozen well formed strings to three parsers and never run the slicer, its layouts, schedulers or routers at all",
  [S+"pipelines/slicer.cpp", S+"patches/dense_patch_computation.cpp", S+"scheduler/wave_scheduler.cpp", S+"gates/parse_gates.cpp",
   S+"ls_instructions/ls_instructions_parse.cpp", S+"layout/ascii_layout_spec.cpp", I+"layout/graph_search/custom_graph_search.hpp"],
  "iterators into vectors and maps kept across scheduling recursion, optional patches, grid indexing, hand written string_view parsers",
  "sanitizer reports, exit status and signals of run_slicer_program built with -fsanitize=address,undefined")

p("C02", "Each gate lowers to instructions that implement exactly that gate",
  """The LS instructions emitted for each gate (x, y, z, h, s, t and daggers, cx, cz, rz by multiples of pi, reset), in every CNOT type, ancilla placement, --cnotcorrections and local/nonlocal mode,
  implement that gate's action on the logical qubits for every combination of measurement outcomes, up to Pauli corrections (outcome dependent) and the S correction of a consumed magic state
  (chains of CNOTs or CZs on a shared qubit as a whole). Every ancilla has a name no other patch has, is introduced by exactly one Init or request, measured out exactly once and not used afterwards.""",
  ["inputs", "configurations"], """all gate programs, CX/CZ with each CNOT type and ancilla placement annotation, --cnotcorrections never/always, local and nonlocal mode""",
  "the unit tests only parse; whether an emitted instruction stream equals the gate as a quantum operation is not looked at for any input",
  [S+"ls_instructions/ls_instructions_from_gates.cpp", S+"ls_instructions/ls_instruction_stream.cpp", S+"gates/gates.cpp", I+"ls_instructions/id_generator.hpp"],
  "LSInstructionStreamFromGateStream translates gate by gate, drawing ancilla ids from a shared IdGenerator",
  "the stream printed by --printlli before, executed by a state vector interpreter of LS instructions over measurement branches")

p("C03", "S/H injection passes preserve meaning and leave no bare S gate",
  """After the injection passes chosen by layout and S mode (S by twists with Y states, catalytic S, boundary rotations on the compact layouts, a rotation after every H on the edpc layouts), the stream implements what the stream before did,
  up to Pauli corrections, keeps all other instructions unchanged and in order, and contains no S gate on layouts that cannot execute it. Every ancilla introduced has a name no other patch has.
  On the compact layouts a rotation is inserted where, and only where, the next operation needs a boundary of a qubit that the qubit does not expose.""",
  ["inputs", "configurations"], "all gate programs and S-containing LLI programs on compact, compact_no_clogging, edpc (twists and --notwists) layouts",
  "no unit test runs an injection stream; equivalence of rewritten streams is a statement over all programs",
  [S+"ls_instructions/teleported_s_gate_injection_stream.cpp", S+"ls_instructions/catalytic_s_gate_injection_stream.cpp", S+"ls_instructions/boundary_rotation_injection_stream.cpp", S+"gates/gates.cpp"],
  "decorating streams that expand SGate into request/measure/H sequences and insert RotateSingleCellPatch instructions",
  "--printlli before with each layout, compared with a state vector interpreter and with the uninjected stream")

p("C04", "Every instruction is executed exactly once and in dependency order",
  """For every successful run, the instructions reported as applied are exactly the instructions of the processed stream (plus the follow-ups of rotations, S corrections, Y states and local compilation), each exactly once.
  Two instructions that share a patch are applied in program order without overlapping in time, and in the stream pipeline the whole order is the program order; a failing run has applied a prefix closed under these orders.""",
  ["inputs", "schedules", "configurations"], "all programs, in stream, dag, wave and edpc pipelines on every layout; schedules arise from congestion, magic state waits and retries",
  "the order depends on congestion, retries and magic state timing of each run; unit tests never run a pipeline",
  [S+"patches/dense_patch_computation.cpp", S+"scheduler/wave_scheduler.cpp", I+"dag/dependency_dag.hpp", I+"ls_instructions/ls_instruction_stream.hpp"],
  "stream retry by pushing to the front, dag applicable sets with expand/pop, wave scheduler heads, dependents and stages",
  "--printlli sliced compared with --printlli before")

p("C05", "The patch map stays consistent on every slice",
  """On every slice of every run the grid has the layout's dimensions and each live patch occupies exactly one cell (two while being rotated).
  A patch present on consecutive slices does not move or change unless an instruction applied on that slice does so, appears only by an initialisation, request or distillation, and disappears only by a measurement or a consuming instruction.
  No program patch is ever placed on a cell of a distillation region or on an occupied or reserved cell.""",
  ["inputs", "schedules", "configurations"], "all programs, layouts, pipelines; every slice of every run",
  "it is an invariant of the whole slice history; the tests never produce a slice",
  [S+"patches/dense_slice.cpp", S+"patches/dense_patch_computation.cpp", S+"patches/patches.cpp", S+"layout/ascii_layout_spec.cpp"],
  "DenseSlice cells and patch location lookups, make_slice_copy_with_cleared_activity advance",
  "JSON slices of each run, checked cell by cell and slice against slice together with the instructions applied on that slice")

p("C06", "Every merge is carried by a legal path of ancilla cells",
  """For every joint measurement applied on a slice, that slice shows one connected chain of ancilla cells joined by stitched edges from a boundary of the first operand to a boundary of the second, each of the type that its measured Pauli needs
  (Z: solid, X: dashed), or the two operands stitched directly when they are neighbours.
  Both operands show the measurement, chains of different operations share no cell, and the chain's cells were free before the operation and are free again on the next slice.""",
  ["inputs", "schedules", "configurations"], "all merges in all runs over layouts, routers and pipelines",
  "paths depend on congestion at the time of each merge; the tests never route on a slice",
  [S+"patches/dense_slice.cpp", S+"layout/router.cpp", S+"patches/dense_patch_computation.cpp", I+"layout/graph_search/custom_graph_search.hpp"],
  "route apply functions stitch edges between source, RoutingRegion cells and target; busy regions cleared on slice advance",
  "edges, patch_type and activity in JSON slices joined with the instructions applied on that slice")

p("C07", "Routing finds a shortest legal route exactly when one exists",
  """Between two patches and required boundaries on a slice, each graph search provider (djikstra, astar, boost) finds a route of adjacent, free cells leaving and entering the patches through boundaries of the required types
  whenever such a route exists at that moment, none otherwise, and a route found has the minimum possible number of cells.
  An operation therefore is applied on the first slice on which such a route is free when nothing else keeps it waiting.""",
  ["inputs", "configurations"], "all grids, occupancy patterns, source/target cells, Pauli operators, graph search providers and routers",
  "a reachability and optimality statement over all occupancy patterns; no unit test routes",
  [S+"layout/router.cpp", I+"layout/graph_search/custom_graph_search.hpp", I+"layout/graph_search/boost_based_graph_search.hpp", S+"patches/dense_slice.cpp"],
  "custom Dijkstra/A* over the slice grid, boost astar over an explicit graph",
  "routes returned by the router on generated slices, compared with a reference BFS; lengths of merges in JSON slices")

p("C08", "Magic states are produced on schedule and consumed exactly once",
  """A distillation region makes one magic state whenever its countdown runs out: first after its staggered (default) or common (--nostagger) offset, then once every period (--disttime slices, plus the region's share of the stagger as the layout states it), and a reserved magic cell again after its respawn delay;
  a state appears in no other way, at a free cell next to its region, and is lost only when no such cell is free.
  Each magic state request that is applied consumes exactly one state available on that slice, no state is handed to two requests, a request waits only while none is available, and the countdowns shown are the real ones.""",
  ["inputs", "schedules", "configurations"], "all T-gate programs, disttime, nostagger, layouts with distillation regions or reserved cells",
  "production and consumption interleave over hundreds of slices; nothing in the tests distils",
  [S+"patches/dense_patch_computation.cpp", S+"patches/dense_slice.cpp", S+"layout/ascii_layout_spec.cpp", I+"layout/dynamic_layouts/compact_layout.hpp", I+"layout/dynamic_layouts/edpc_layout.hpp"],
  "distillation time counters per region, magic state queue, reserved cells respawn",
  "distillation cells' countdown texts, unbound patches and instruction events in JSON slices")

p("C09", "Rotations and Hadamards take their space-time cost and flip boundaries once",
  """A rotation reserves its patch and one free neighbouring cell for its whole duration, during which no other instruction touches either cell, and leaves the patch in its cell with its boundary types exchanged exactly once.
  A Hadamard gate exchanges the boundary types of its patch once, on the slice on which it is applied, and no other instruction changes them.""",
  ["inputs", "schedules"], "all programs with H/rotation instructions, all layouts and pipelines",
  "an interval property across slices under contention; the tests do not advance slices",
  [S+"patches/dense_patch_computation.cpp", S+"patches/patches.cpp", S+"patches/dense_slice.cpp", S+"ls_instructions/boundary_rotation_injection_stream.cpp"],
  "BusyRegion with steps_to_clear and state_after_clearing",
  "edge types of patches over consecutive JSON slices")

p("C10", "Parsers accept the documented language exactly and report the bad line",
  """Every well formed QASM or LLI program is read as precisely the gates/instructions it denotes, in order, independent of comments, blank lines, line ends, register name and (QASM) spacing, and LLI text printed by the tool reads back to the same instructions.
  Every malformed line (unknown instruction, malformed number, index out of range, wrong number of operands, repeated operand) makes the run fail with an error naming that line, never a silently different program;
  only what follows the last operand of an LLI instruction, or the semicolon of a QASM gate, is ignored.""",
  ["inputs"], "all programs in the grammar and their mutations",
  "the tests parse a few dozen fixed strings; the statement ranges over the language",
  [S+"gates/parse_gates.cpp", S+"ls_instructions/ls_instructions_parse.cpp", S+"ls_instructions/parse_utils.cpp", S+"ls_instructions/ls_instructions.cpp", S+"ls_instructions/ls_instruction_stream.cpp", S+"gates/gates.cpp"],
  "hand written line parsers over string_view splitting",
  "--printlli before / --printdag input output against an independent reference parser")

p("C11", "Dependency DAG orders all and only non-commuting instructions",
  """The dependency graph built from a program (gates, instructions before or after processing) is acyclic, has one node per gate or instruction, and orders, directly or by a path forward in program order,
  every pair that acts on a common qubit and does not commute; it orders no pair that is not connected by such dependencies.
  Popping heads until empty visits every node once in an order consistent with it, also when nodes are replaced by their follow-ups meanwhile.""",
  ["inputs", "histories"], "all gate and LLI programs; all sequences of push/pop/expand operations on the DAG",
  "the tests check a handful of 3 to 6 node graphs",
  [I+"dag/dependency_dag.hpp", S+"dag/directed_graph.cpp", S+"dag/domain_dags.cpp", I+"dag/commutation_trait.hpp", S+"gates/gates.cpp", S+"ls_instructions/ls_instructions.cpp"],
  "DependencyDag::push connects a new node to tail nodes it does not commute with",
  "--printdag graphviz output and an in-process driver of DependencyDag against a reference partial order")

p("C12", "Layouts are built as specified",
  """A generated layout (compact, compact_no_clogging, edpc with any number of lanes, condensed or with explicit factories) has a distinct live cell for every qubit of the program and the free cells, distillation regions, ancilla, Y and magic cells of its specification, and
  every core qubit can reach a free cell and a magic source.
  A custom ASCII layout yields exactly the cells its characters name, connected equal digits being one distillation region, and is rejected when it contains anything else or has too few qubit cells for the program.""",
  ["inputs", "configurations"], "all qubit counts, lane counts, flags; all ASCII layout texts",
  "layout generation is a function of arbitrary size; the layout tests are not in the suite",
  [S+"layout/ascii_layout_spec.cpp", I+"layout/dynamic_layouts/compact_layout.hpp", I+"layout/dynamic_layouts/edpc_layout.hpp", S+"layout/layout.cpp"],
  "string generators plus LayoutFromSpec parsing, clockwise distillation region search",
  "first slice of a run on that layout against a reference reading of the specification")

p("C13", "Reported output and statistics equal what was computed",
  """The slice output is one valid JSON array with one element per slice, also when the run is halted under --graceful, byte-identical whether written to stdout or to -o.
  The reported instruction and slice counts, the machine-format line and the volume statistics equal those recomputed from the emitted slices and applied instructions, and sliced instruction output lists each slice's instructions on its line.
  Each emitted cell is described consistently: edges of neighbouring stitched cells agree, cells of one patch name each other, and activities match the instructions of that slice.""",
  ["inputs", "configurations"], "all programs and output modes (-o, --noslices, -f progress/machine/stats, --printlli)",
  "conservation between several outputs of the same run; no test reads any output",
  [S+"patches/slices_to_json.cpp", S+"patches/slice_stats.cpp", S+"pipelines/slicer.cpp", I+"patches/dense_patch_computation.hpp"],
  "slice visitors chained for printing, counting and statistics",
  "stdout, -o files and statistics of repeated runs of one input")

p("C14", "The result depends only on the input, not on output mode, history or entry point",
  """Running the same program, layout and flags again - in a new process, after other (also failing) runs in the same process, through the string API, from a file or from stdin, or in another output mode - yields the same slices, instruction order, operation ids and messages (up to timings).
  On layouts whose routes cannot be blocked, the cached router applies the same instructions on the same slices as the default one.""",
  ["histories", "configurations"], "all programs and all sequences of preceding runs in one process",
  "a relation between runs and process histories (global state, hash order), not one run",
  [S+"pipelines/slicer.cpp", S+"layout/router.cpp", S+"gates/gates.cpp", I+"gates/gates.hpp", S+"patches/dense_patch_computation.cpp"],
  "process wide mutable default of ControlledGate::default_ancilla_placement, unordered containers, CachedRouter",
  "outputs of paired runs compared byte for byte")

p("C15", "Local compilation expands each merge into a correct nearest-neighbour Bell chain",
  """With --local, every long-range operation (Bell-based CNOT, Bell pair preparation, joint measurement) is replaced by local operations that each act on one cell or two adjacent cells, at most one per cell and slice, through boundaries that match the Paulis they measure.
  Together they form one uninterrupted chain between the two operands, prepare each cell on it before and measure it after use exactly once, and implement the same joint operation
  as the instruction they replace, up to Pauli corrections.""",
  ["inputs", "schedules", "configurations"], "all programs with --local on edpc/compact layouts in stream, dag, wave and edpc pipelines",
  "the expansion depends on the route length and occupancy at run time; the tests never compile locally",
  [S+"ls_instructions/local_instructions.cpp", S+"patches/dense_patch_computation.cpp", I+"ls_instructions/local_instructions.hpp", S+"ls_instructions/ls_instructions_from_gates.cpp"],
  "BellBasedCNOT two-phase expansion along the route, local instructions applied over two slices",
  "bracketed local instructions in --printlli sliced joined with JSON slices")

p("C16", "EDPC scheduling uses only edge-disjoint paths with legal crossings",
  """In the edpc pipeline, the operations routed in the same round follow paths through free routing cells that share no grid edge; at most two paths meet in one cell, and they use it one after the other.
  A cell serves one path at a time over the whole run, the slices show each cell reserved for the paths that use it, and no path is longer than the shortest one left open to it.""",
  ["inputs", "schedules"], "all programs run with -P edpc -L edpc --local",
  "depends on which CNOTs are simultaneously routable in each run",
  [S+"patches/dense_patch_computation.cpp", S+"scheduler/wave_scheduler.cpp", I+"layout/graph_search/custom_graph_search.hpp", S+"ls_instructions/local_instructions.cpp"],
  "EDPC crossing vertices, stages of local instructions",
  "local instruction chains of each slice (cells and edges) in --printlli sliced and JSON slices")

p("C17", "Option, error and termination contract",
  """Every documented option value is accepted and has its documented effect; every unknown value, malformed number, documented incompatible combination, unreadable input and unwritable output makes the run fail with a message and no success code.
  A program the layout can execute terminates with success on every pipeline; one it cannot execute ends with an error naming the instruction (dag pipeline) or, with -t N, by that time limit, and never drops instructions silently.
  Under --graceful a halted run leaves the slices computed so far as well formed output.""",
  ["configurations", "inputs"], "all option values and combinations, feasible and infeasible programs",
  "the option space times input space; no test passes a command line",
  [S+"pipelines/slicer.cpp", S+"patches/dense_patch_computation.cpp", S+"scheduler/wave_scheduler.cpp"],
  "argparse dispatch on strings, retry loops, graceful handlers",
  "exit codes, exception texts, stdout/stderr, bounded CPU time")

p("C18", "Operation ids identify each merge uniquely",
  """With --op-ids every joint measurement's operands and chain cells carry that operation's id on the slice it runs on, distinct operations carry distinct ids over the whole run, and no other cell carries an id.
  Without it no ids are emitted and nothing else differs.""",
  ["inputs", "schedules"], "all programs run with --op-ids in all pipelines",
  "a uniqueness property over the whole history of a run",
  [S+"patches/dense_patch_computation.cpp", S+"patches/slices_to_json.cpp", S+"patches/dense_slice.cpp", S+"ls_instructions/ls_instructions.cpp"],
  "operation_id stored in patches and route cells",
  "operation_id fields of JSON slices")

p("C19", 'Y states are handed out, given back and prepared correctly',
  'A request for a Y state whose id is not on the grid is served by the nearest pre-distilled Y state of the layout that is idle and not bound (when the layout has any and local twist-based compilation is not in use); with twists and no such states it is served by a new Y state on a free cell at a Z boundary of the patch it is for, its own Z boundary facing that patch. A request whose id is on the grid gives that patch back: it stays where it is, unbound, and a later request can be served by it. No Y state is bound to two ids at once, none moves or appears in another way, one that was measured out does not come back, and a request waits only while it cannot be served.',
  ['inputs', 'schedules', 'configurations'], 'all programs with S gates or Y state requests; layouts with and without pre-distilled Y states, --notwists, --local, all pipelines but edpc',
  'the pool of Y states is shared by gates whose order and overlap depend on the whole schedule; no test requests a Y state',
  [S+"patches/dense_patch_computation.cpp", S+"patches/dense_slice.cpp", S+"ls_instructions/catalytic_s_gate_injection_stream.cpp", S+"ls_instructions/teleported_s_gate_injection_stream.cpp"],
  'YStateRequest: bind, unbind, PrepareY; predistilled_ystates_available',
  'bound and unbound patches in JSON slices, with the requests applied and waiting on each slice')

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
