OPT = "include/operations/optimization/"
ALG = "include/operations/algorithms/"
NET = "include/database/network/"
TESTS = "The repository's tests run {} on a handful of fixed circuits with default parameters; "

P("O01", "Rewriting keeps every output's function and leaves a consistent network",
  """For every and-inverter graph and every permitted setting of the rewriting pass, each output of the result computes the same function of the inputs as before,
     with the same number and order of inputs and outputs. The result is well formed: acyclic, no gate or output refers to a removed gate, and the reported numbers of
     gates, inputs and outputs are those that iteration finds; rewriting always terminates.""",
  ["inputs", "configurations", "histories"], "all AIGs x {depth preservation, zero gain, cut size 2-4, cut limit 6-20} x up to three applications in a row",
  "There is no test of rewriting at all; equivalence must hold for every circuit shape (reconvergence, sharing, dead logic) and every parameter setting.",
  [OPT + "rewrite.hpp", OPT + "detail/node_rewriting.hpp", OPT + "detail/database_npn4_aig.hpp", "include/database/cut/cut_enumeration.hpp", NET + "aig_network.hpp"],
  [("cut enumeration with truth tables", "include/database/cut/cut_enumeration.hpp"), ("NPN class table and gain estimate", OPT + "rewrite.hpp"), ("in-place substitution", NET + "aig_network.hpp")],
  "Equivalence on all patterns up to 11 inputs, on 1024 patterns above.", "property-based testing: random AIGs and parameters against an independent evaluator", ["rewrite()"])

P("O02", "Refactoring keeps every output's function, and the depth when asked to",
  """For every and-inverter graph and every permitted setting of the refactoring pass, each output of the result computes the same function of the inputs as before, with the
     same ports, in a well formed network with truthful counts. When the pass may not raise depth, the result is never deeper than the network it was given.""",
  ["inputs", "configurations", "histories"], "all AIGs x {depth may rise, zero gain, 2-12 leaves, cone size 2-20} x up to three applications in a row",
  TESTS.format("refactoring") + "functions, depth and consistency must hold for every circuit and parameter setting.",
  [OPT + "refactor.hpp", OPT + "detail/sop_refactoring.hpp", NET + "aig_network.hpp", "include/database/views/depth_view.hpp"],
  [("reconvergence-driven cuts, SOP factoring", OPT + "refactor.hpp"), ("level bookkeeping", "include/database/views/depth_view.hpp")],
  "Equivalence on all patterns up to 11 inputs, on 1024 patterns above.", "property-based testing: random AIGs and parameters against an independent evaluator", ["refactor()"])

P("O03", "AND-balancing keeps every function and never deepens the network",
  """For every and-inverter graph, balancing gives a well formed network with the same ports in which every output computes the same function as before.
     The result is never deeper than the network it was given.""",
  ["inputs", "histories"], "all AIGs x up to two applications in a row",
  TESTS.format("balancing") + "the guarantee is over every structure: long chains, sharing, inverted groups, constant and repeated operands.",
  [OPT + "and_balance.hpp"], [("super-gate collection and rebuilding by level", OPT + "and_balance.hpp")],
  "Equivalence on all patterns up to 11 inputs, on 1024 patterns above.", "property-based testing: random AIGs against an independent evaluator", ["balance_and()"])

P("O04", "Any sequence of passes keeps every output's function",
  """However rewriting, refactoring, balancing, LUT-based optimisation and clean-up are sequenced, with any parameters, the network after each step has the same ports and
     computes the same output functions as the original circuit, and stays well formed. Clean-up removes every gate that no output needs.""",
  ["histories", "inputs", "configurations"], "all AIGs x all sequences of 2-7 passes x all parameters",
  "No test applies two passes to one network; passes work in place on shared storage, so state left by one pass is input to the next.",
  [OPT + "rewrite.hpp", OPT + "refactor.hpp", OPT + "and_balance.hpp", ALG + "cleanup.hpp", ALG + "klut_mapping.hpp", NET + "aig_network.hpp"],
  [("shared storage with in-place substitution", NET + "aig_network.hpp"), ("clean-up into a fresh network", ALG + "cleanup.hpp")],
  "Equivalence checked after every step.", "stateful property-based testing: random pass histories against an independent evaluator", ["rewrite()", "refactor()", "balance_and()", "cleanup_dangling()"])

P("O05", "LUT-based optimisation keeps every output's function",
  """Mapping an and-inverter graph to LUTs and converting the LUT network back to an and-inverter graph gives, for every graph and every permitted mapping setting,
     a well formed network with the same ports whose outputs compute the same functions.""",
  ["inputs", "configurations", "histories"], "all AIGs x {LUT size 2-6, cut limit 6-20, iteration counts, zero gain} x up to two applications",
  "No test covers the round trip through LUTs.",
  [ALG + "klut_mapping.hpp", ALG + "network_to_klut.hpp", ALG + "detail/convert_to_aig.hpp", "cli/command/lut_opt.hpp"],
  [("LUT mapping", ALG + "klut_mapping.hpp"), ("collapse", ALG + "network_to_klut.hpp"), ("SOP-based conversion", ALG + "detail/convert_to_aig.hpp")],
  "Equivalence on all patterns up to 11 inputs, on 1024 patterns above.", "property-based testing: random AIGs and parameters against an independent evaluator", ["convert_klut_to_aig()"])

P("O06", "SOP balancing keeps every function and leaves its input alone",
  """Delay-driven sum-of-products balancing gives, for every and-inverter graph and every permitted cut setting, a well formed network with the same ports
     whose outputs compute the same functions; the network it was given is unchanged.""",
  ["inputs", "configurations"], "all AIGs x {cut size 2-6, cut limit 4-25, critical path only or not}",
  "There is no test of this pass.",
  [OPT + "balancing.hpp", OPT + "balancing/sop_balancing.hpp", OPT + "balancing/utils.hpp"], [("cut-wise resynthesis by arrival time", OPT + "balancing.hpp")],
  "Equivalence on all patterns up to 11 inputs, on 1024 patterns above.", "property-based testing: random AIGs and parameters against an independent evaluator", ["balancing()"])

P("M01", "LUT mapping implements the circuit with LUTs of at most the chosen size",
  """For every and-inverter graph and every permitted mapping setting, the LUT network has the circuit's ports, every output computes the circuit's function, and no LUT has more
     inputs than the chosen size. In the mapping itself every needed gate is covered by exactly one cell with distinct inputs, whose function over those inputs is what
     the gate computes; the circuit it was computed from is unchanged.""",
  ["inputs", "configurations"], "all AIGs x {LUT size 2-6, cut limit 6-20, flow and area iterations, zero gain}",
  "There is no test of mapping on more than one fixed circuit, none checks functions.",
  [ALG + "klut_mapping.hpp", ALG + "network_to_klut.hpp", "include/database/views/mapping_view.hpp", NET + "klut_network.hpp"],
  [("priority cuts, area recovery, final cover", ALG + "klut_mapping.hpp"), ("collapse of cells into LUTs with inverted outputs", ALG + "network_to_klut.hpp")],
  "Every cell's function is compared with its gate on all patterns up to 11 inputs.", "property-based testing: random AIGs and parameters against an independent evaluator of cells and LUTs", ["klut_mapping()", "choice_to_klut()", "network_to_klut()"])

P("M02", "Reported mapping quality is true, and mapping never deepens or enlarges",
  """The area and delay reported for a LUT mapping are exactly the number of cells and the depth of the mapping that was produced, and the reported number of cells agrees.
     A mapping is never deeper than the and-inverter graph and never has more cells than the graph has gates in its output cones.""",
  ["inputs", "configurations"], "all AIGs x {LUT size 2-6, cut limit 6-20, flow and area iterations, zero gain}",
  "No test compares reported figures with the produced mapping; figures go wrong only when later rounds slow down leaves of kept cuts, which needs particular circuits.",
  [ALG + "klut_mapping.hpp", "include/database/views/mapping_view.hpp"],
  [("arrival and required times", ALG + "klut_mapping.hpp"), ("cell bookkeeping", "include/database/views/mapping_view.hpp")],
  "", "property-based testing: reported figures against figures measured by an independent traversal", ["klut_mapping()", "num_cells()"])

P("M03", "Mapping with structural choices implements the circuit",
  """Merging any number of structurally different versions of one circuit and mapping the merged network with its structural choices gives a LUT network with the circuit's ports and
     output functions, within the chosen LUT size, never deeper than the network with choices; its reported area and delay are those of the mapping produced.""",
  ["inputs", "configurations", "histories"], "all AIGs x sets of 1-13 equivalent versions (restructured, results of passes) x choice and mapping parameters",
  TESTS.format("choice computation") + "none maps with choices; a wrong phase, a cyclic choice or a trivial cut shows only on particular classes.",
  [ALG + "choice_miter.hpp", ALG + "choice_computation.hpp", ALG + "aig_with_choice.hpp", ALG + "klut_mapping.hpp", ALG + "network_to_klut.hpp"],
  [("merging", ALG + "choice_miter.hpp"), ("simulation classes and SAT sweeping", ALG + "choice_computation.hpp"), ("cuts of choices", ALG + "klut_mapping.hpp")],
  "", "property-based testing: generated equivalent versions, result against an independent evaluator", ["klut_mapping()", "choice_to_klut()"])

P("M04", "Structural choices are equivalent, up to a known phase, and acyclic",
  """The network merged from equivalent versions of a circuit, and the network with choices computed from it, have the circuit's ports and functions. Any two gates recorded as choices of each other compute
     the same function up to the inversion the network records for them, every list of choices ends, and following fanins and choices never leads back to the start.""",
  ["inputs", "configurations", "histories"], "all AIGs x sets of 1-13 equivalent versions x {simulation words, conflict limit, solver recycling, polarity}",
  TESTS.format("choice computation") + "soundness of SAT sweeping must hold for every class, counterexample and resource limit.",
  [ALG + "choice_miter.hpp", ALG + "choice_computation.hpp", ALG + "aig_with_choice.hpp"],
  [("candidate classes by simulation", ALG + "choice_computation.hpp"), ("SAT proof with recycling", ALG + "choice_computation.hpp"), ("cycle check and ordering", ALG + "aig_with_choice.hpp")],
  "", "property-based testing: class members against an independent evaluator", ["compute_choice()", "merge_aigs_to_miter()"])

P("M05", "Enumerated cuts are cuts, with right functions, and none is missing",
  """Every cut enumerated for a node stays within the size and number limits, has sorted distinct leaves that separate the node from the inputs, and comes with the node's function of those leaves; no cut is kept twice or together with a
     cut inside it, and the node's own trivial cut is there. As long as the limits leave room for all irredundant cuts of a node and its fanins, all of them are there.""",
  ["inputs", "configurations"], "all AIGs x {cut size 2-6, cut limit 3-25, functions minimised or not}",
  "The enumeration test prints cuts of one circuit; soundness and completeness are about every node of every circuit.",
  ["include/database/cut/cut_enumeration.hpp", "include/database/cut/cut.hpp", "include/database/cut/cut_set.hpp", "include/utils/truth_table_cache.hpp"],
  [("merging of fanin cuts", "include/database/cut/cut_enumeration.hpp"), ("dominance and order", "include/database/cut/cut_set.hpp"), ("truth table cache", "include/utils/truth_table_cache.hpp")],
  "With minimised functions, separation and completeness are not required.", "property-based testing: cuts against a reference enumeration and evaluator", ["cut_enumeration()"])

P("M06", "Cuts and cut sets behave like sets of leaves",
  """A cut's leaves, containment test and union agree with set operations on the leaves for all leaf sets, and a union is refused exactly when it exceeds the limit. A cut set under any history of insertions, limits, clearing and
     promotions holds exactly the cuts a list ordered by cost holds, none containing another, and never more than its capacity.""",
  ["inputs", "histories"], "leaf sets up to 10 leaves over small and large universes x histories of 3-30 operations",
  "Two tests compare a few literal cuts; signature collisions, ties in the order and full sets need particular leaf sets and histories.",
  ["include/database/cut/cut.hpp", "include/database/cut/cut_set.hpp"],
  [("signature filter", "include/database/cut/cut.hpp"), ("partition, ordered insertion, eviction", "include/database/cut/cut_set.hpp")],
  "", "stateful (model-based) property-based testing against standard sets and vectors", ["cut::merge", "cut::dominates", "cut_set::insert"])

P("N01", "Creating gates builds exactly the requested functions, hashed and counted",
  """For every history of creating inputs, gates of each kind, outputs and registers in an and-inverter graph, each returned signal computes the requested function of its operands; a gate with the same operands is never
     created twice and trivial gates never at all, however large the network; and counts, fanouts, indices, iteration and per-node values agree with one another.""",
  ["inputs", "histories"], "histories of 1-140 creations over 8 inputs, some grown past 21000 gates",
  "The tests create a few gates each; hashing, growth of the tables and operand polarity matter on long histories.",
  [NET + "aig_network.hpp", NET + "details/storage.hpp", NET + "details/foreach.hpp"],
  [("structural hashing", NET + "details/storage.hpp"), ("gate constructors", NET + "aig_network.hpp"), ("iteration", NET + "details/foreach.hpp")],
  "", "stateful property-based testing against a mirror of the network and words of all patterns", ["create_and()", "num_gates()", "fanout_size()"])

P("N02", "Replacing and removing nodes in place does exactly that",
  """Replacing a node of an and-inverter graph by any signal that does not depend on it makes the outputs compute what the old structure computes with that node replaced; merged and constant gates are cleaned up,
     the replaced node is gone, nothing refers to a removed node, and hash table, counts and fanouts stay right, over every history of such replacements, removals and creations.""",
  ["histories", "inputs"], "random AIGs x histories of 1-20 replacements (single, several in one call), removals and creations",
  "The tests replace single nodes in three fixed circuits; merges that cascade or hit the removed cone need particular structures.",
  [NET + "aig_network.hpp", NET + "details/storage.hpp"],
  [("replacement with propagation of merges", NET + "aig_network.hpp"), ("removal from the hash table", NET + "details/storage.hpp")],
  "Several nodes replaced in one call are replaced by equivalent signals.", "stateful property-based testing: outputs against evaluation of the old structure with the replaced nodes", ["substitute_node()", "substitute_nodes()", "take_out_node()"])

P("N03", "k-LUT networks hold exactly the given functions, and their conversions keep them",
  """For every history of creating inputs, gates of arbitrary functions and outputs in a k-LUT network, functions, fanins, kinds, counts, indices and values of nodes are those given; marking nodes with values changes nothing else;
     removing dangling or trivial LUTs, converting to an and-inverter graph and replacing nodes give networks with the right output functions.""",
  ["inputs", "histories"], "histories of 1-60 creations with functions of 1-8 inputs, constant and repeated fanins",
  "The tests build two small networks and print them.",
  [NET + "klut_network.hpp", "include/utils/truth_table_cache.hpp", ALG + "cleanup.hpp", ALG + "detail/convert_to_aig.hpp"],
  [("function cache with complemented literals", "include/utils/truth_table_cache.hpp"), ("constant propagation and support reduction", ALG + "cleanup.hpp"), ("SOP-based conversion", ALG + "detail/convert_to_aig.hpp")],
  "", "stateful property-based testing against a mirror of the network and words of all patterns", ["create_node()", "cleanup_luts()", "convert_klut_to_aig()"])

P("N04", "Views and clean-up show the network as it is",
  """A topological view lists the constant, all inputs and exactly the gates of the output cones (or of the given signal's cone), each once and after its fanins. A depth view reports the length of the longest path to every needed
     node and output, also after gates and outputs are added. Clean-up keeps functions and removes exactly what its options say. All of this holds for networks changed in place as well.""",
  ["inputs", "histories", "configurations"], "random AIGs after 0-2 in-place replacements x additions x options",
  "No test covers the views after changes, nor the options of clean-up.",
  ["include/database/views/topo_view.hpp", "include/database/views/depth_view.hpp", ALG + "cleanup.hpp", "include/utils/node_map.hpp"],
  [("depth-first order", "include/database/views/topo_view.hpp"), ("levels updated on creation", "include/database/views/depth_view.hpp"), ("rebuilding", ALG + "cleanup.hpp")],
  "", "property-based testing against independent traversals", ["topo_view", "depth_view::depth()", "cleanup_dangling()"])

P("S01", "Simulation computes every node's value, also incrementally and after packing",
  """Simulating a network on bits, words, truth tables or pattern sets gives for every node and output the value it has under each input pattern. When patterns are added, re-simulating all or single nodes gives the values for the grown set;
     packing patterns that have don't-cares never loses a cared-for bit of any pattern, and random pattern sets are determined by their seed.""",
  ["inputs", "histories"], "random AIGs and k-LUT networks x pattern sets that grow by 0-159 patterns (packing up to 3600)",
  "No test covers incremental re-simulation or packing; word boundaries and slots freed by packing matter.",
  [ALG + "simulation.hpp", NET + "aig_network.hpp", NET + "klut_network.hpp"],
  [("simulators", ALG + "simulation.hpp"), ("last-word re-simulation", NET + "aig_network.hpp"), ("packing", ALG + "simulation.hpp")],
  "", "property-based testing: simulation against evaluation of every pattern", ["simulate()", "simulate_nodes()", "simulate_node()", "pack_bits()"])

P("S02", "Formulas and miters decide exactly the circuit's functions",
  """The conjunctive normal form generated from a network is satisfied, for every input pattern, by exactly the values the network's gates and outputs have under it. A miter of two networks with equal ports has one
     output, 1 exactly under the patterns where they differ, and there is none for different numbers of ports. Equivalence checking says equivalent, or not, as the functions are, with a true counter-example when not.""",
  ["inputs", "configurations"], "pairs of random circuits of 1-10 inputs (equivalent, restructured, mutated) as AIGs and LUT networks in every supported combination",
  "No test covers the CNF generator, miters or equivalence checking.",
  [ALG + "cnf.hpp", ALG + "miter.hpp", ALG + "equivalence_checking.hpp", ALG + "debugger.hpp"],
  [("clauses per gate or LUT", ALG + "cnf.hpp"), ("XOR of output pairs", ALG + "miter.hpp"), ("SAT call and model extraction", ALG + "equivalence_checking.hpp")],
  "", "property-based testing: formulas, miters and verdicts against evaluation of all patterns", ["generate_cnf()", "miter()", "equivalence_checking()"])

P("S03", "The circuit validator answers every query rightly, over any history of queries",
  """For every history of queries, updates and growth of the network, the validator's verdict on whether a signal equals another signal, a constant, or a small circuit over divisors is right,
     every counter-example it leaves distinguishes the two, and generated patterns give the asked value and differ from one another and from blocked ones. Growing past its limits and restarting change no answer.""",
  ["histories", "inputs", "configurations"], "random AIGs of 1-8 inputs x histories of 2-60 queries x both solvers, with and without push/pop, clause limits",
  "No test covers the validator; stale clauses show only after particular histories of queries and restarts.",
  [ALG + "circuit_validator.hpp", ALG + "cnf.hpp"],
  [("incremental clauses, activation literals, restart at the clause limit", ALG + "circuit_validator.hpp")],
  "Observability don't-care mode is not covered (it cannot be instantiated).", "stateful property-based testing: verdicts and counter-examples against evaluation of all patterns", ["circuit_validator::validate()", "generate_pattern()"])

P("S04", "Converted mappings keep functions; checking a mapping tells right from wrong",
  """Converting a LUT network, or a mapped network's cells, to an and-inverter graph gives the same ports and the functions the LUTs or cells compute. Checking a mapping through the miter with its conversion
     accepts it exactly when its cells compute the circuit's output functions, also when a cell is wrong under a single pattern.""",
  ["inputs", "configurations"], "mappings of random AIGs with all mapping parameters, right or with one minterm of one cell flipped; random LUT networks up to 41 nodes",
  "No test covers the conversions or the checkers.",
  [ALG + "detail/convert_to_aig.hpp", ALG + "debugger.hpp", ALG + "miter.hpp", "include/database/views/mapping_view.hpp"],
  [("SOP-based conversion", ALG + "detail/convert_to_aig.hpp"), ("miter-based check", ALG + "debugger.hpp")],
  "", "property-based testing: conversions and verdicts against evaluation of all patterns", ["convert_klut_to_aig()", "convert_mapped_graph_to_aig()", "debug_mapped_aig_by_converted_miter()"])

IO = "include/operations/io/"
P("F01", "Reading binary AIGER gives exactly the circuit and the port names in the file",
  """For every well-formed combinational binary AIGER file, reading it from a file or stream, into an and-inverter graph or a LUT network, gives the file's inputs and outputs in order, computing the file's
     functions. Names in the symbol table, in any order and however few, are attached to the ports they belong to; a side without names stays without, and partly named ports never shift names.
     Latches become registers of the and-inverter graph, in order, with their initial values (0, 1 or none where the file names one), names and next-state functions.""",
  ["inputs"], "binary AIGER files of 0-150 (rarely 65,500) inputs, 1-40 outputs with full, partial, shuffled or no symbol tables, AIGER 1.9 property sections and comments; one file in ten with latches",
  "The tests read a few fixed files and compare nothing but counts.",
  [IO + "reader.hpp", IO + "detail/aiger_reader.hpp", "libs/lorina/lorina/aiger.hpp"],
  [("binary delta decoding", "libs/lorina/lorina/aiger.hpp"), ("network construction and names", IO + "detail/aiger_reader.hpp"), ("escaped port names", IO + "reader.hpp")],
  "Names are unique and without white space. ASCII AIGER, and latches whose initial value the file leaves out, are not covered.", "property-based testing: files from an independent encoder, result against an independent evaluator", ["Reader", "lorina::read_aiger()"])

P("F02", "Binary AIGER files written hold exactly the network",
  """For every clean and-inverter graph, also one that optimisation passes produced, the file written is well-formed binary AIGER with the network's inputs, outputs and gates in it, computing the network's functions,
     and reading it back gives the same network sizes and functions.""",
  ["inputs", "histories"], "random AIGs of 1-150 inputs, fresh or after up to three passes, through all writer interfaces",
  "One test writes one file; encodings of two and more bytes, complemented and constant outputs need particular circuits.",
  [IO + "detail/write_aiger.hpp", IO + "writer.hpp"], [("delta encoding", IO + "detail/write_aiger.hpp"), ("file creation", IO + "writer.hpp")],
  "", "property-based testing: round trip and an independent strict decoder", ["write_aiger()", "Writer::write2AIG()"])

P("F03", "Malformed AIGER files neither crash, hang nor yield broken networks",
  """Reading any file derived from a binary AIGER file by cutting it off, changing, inserting or removing bytes, or giving it wrong counts, literals or symbols ends, without an invalid memory access. A file cut before its last
     gate is refused; a file still well-formed is read rightly; whatever is accepted gives a well-formed network.""",
  ["inputs", "faults"], "1-3 random corruptions of binary AIGER files with header counts up to 20000",
  "The tests read only right files.",
  ["libs/lorina/lorina/aiger.hpp", IO + "detail/aiger_reader.hpp", IO + "reader.hpp"],
  [("header, literal and delta validation", "libs/lorina/lorina/aiger.hpp"), ("symbol positions", IO + "detail/aiger_reader.hpp")],
  "Run under AddressSanitizer. Larger header counts (memory) are left out.", "mutation fuzzing of files under AddressSanitizer, with an independent strict decoder as oracle", ["Reader", "lorina::read_aiger()"])

P("F04", "Verilog written for an and-inverter graph computes its functions",
  """For every and-inverter graph, fresh or as passes leave it, the Verilog module written is syntactically right, has the given module name and the given or default port names in port order (scalars, vectors, escaped names),
     assigns every wire and output once, and its outputs compute the network's functions.""",
  ["inputs", "histories", "configurations"], "random AIGs of 1-150 inputs, fresh, cleaned up or after up to three passes x default, scalar, vector, plain and escaped names",
  "The tests write one file and compare nothing.",
  [IO + "detail/write_verilog.hpp", IO + "writer.hpp", "libs/lorina/lorina/verilog.hpp"], [("topological assigns", IO + "detail/write_verilog.hpp"), ("statement formatting", "libs/lorina/lorina/verilog.hpp")],
  "", "property-based testing: the module is parsed and evaluated by an independent Verilog reader", ["write_verilog()", "Writer::write2Verilog()"])

P("F05", "LUT netlists written compute the LUT network's functions",
  """For every LUT network, the netlist written is syntactically right, has the given or default port names in port order, exactly one instance per LUT, connected to that LUT's fanins (inputs, other LUTs, constants) in order,
     whose INIT value is the LUT's function, and its outputs compute the network's functions.""",
  ["inputs", "configurations"], "random LUT networks of 0-9 inputs and nodes of 0-7 fanins, and mappings of random AIGs x default or given names",
  "The tests write one file and compare nothing.",
  [IO + "detail/writer_lut.hpp", IO + "writer.hpp"], [("instances and defparams", IO + "detail/writer_lut.hpp")],
  "", "property-based testing: the netlist is parsed and evaluated by an independent Verilog reader", ["write_lut()", "Writer::write2LUT()"])

P("F06", "DOT drawings show exactly the network",
  """For every and-inverter graph and LUT network, the drawing has one node per constant, input and gate and one per output, shaped by kind and labelled; exactly the network's fanin and output edges, dashed where complemented; and nodes
     of the output cones are ranked by their level, outputs above all.""",
  ["inputs", "histories"], "random AIGs, fresh or after up to three passes, and random LUT networks, with both drawers",
  "The tests write one drawing and compare nothing.",
  [IO + "detail/write_dot.hpp"], [("drawers and ranks", IO + "detail/write_dot.hpp")],
  "", "property-based testing: the drawing is parsed and compared with the network", ["write_dot()"])

CLI = "cli/command/"
P("C01", "Scripts of commands keep the circuit's function in every file written",
  """For every circuit read and every sequence of optimisation, history and mapping commands with permitted options, from a script or the command line, each file a writer command writes afterwards, binary AIGER, Verilog, LUT netlist
     or drawing, is well formed and computes the functions of the circuit read; netlists carry the port names of the file, and LUTs have at most as many inputs as asked for. The program ends normally.""",
  ["inputs", "histories", "configurations"], "sequences of 2-20 commands with random options over 1-2 random circuits",
  "No test runs the command-line program; the guarantee is over all command histories on shared networks.",
  ["cli/imap.cpp", CLI + "io/read_aiger.hpp", CLI + "io/write_aiger.hpp", CLI + "io/write_verilog.hpp", CLI + "io/write_dot.hpp", CLI + "map_fpga.hpp", CLI + "rewrite.hpp", CLI + "refactor.hpp", CLI + "balance.hpp", CLI + "lut_opt.hpp", CLI + "history.hpp"],
  [("current AIG and mapped network in the stores", "cli/imap.cpp"), ("mapping with choices from history", CLI + "map_fpga.hpp")],
  "The program built from cli/imap.cpp is run with its readline front end, under AddressSanitizer.", "stateful property-based testing: random command histories; files parsed and evaluated by independent readers", ["imap -f SCRIPT", "imap -c COMMANDS"])

P("C02", "The command line's statistics and options are truthful",
  """print_stats prints the sizes and depths of the current AIG and of the mapped network: those of the file written at the same time, and those the library gives for the same passes with the options given. Options out of range are
     warned of and change nothing, options of earlier commands do not stick, and the same script gives the same output and files each time.""",
  ["inputs", "histories", "configurations"], "sequences of 2-20 commands with random options, permitted or not, over 1-2 random circuits",
  "No test runs the command-line program; which options reach the library and whether they stick depends on the commands run before.",
  [CLI + "print_stats.hpp", CLI + "rewrite.hpp", CLI + "refactor.hpp", CLI + "balance.hpp", CLI + "lut_opt.hpp", CLI + "map_fpga.hpp", "libs/alice/include/alice/command.hpp"],
  [("option parsing and reset", "cli/command"), ("statistics", CLI + "print_stats.hpp")],
  "Runs of rewrite without -l and lut_opt without -C are not compared with the library: help text and code disagree on the default.", "model-based testing: output compared with the files written and the library run in-process", ["print_stats", "WARN lines"])

P("C03", "The history holds the AIGs put in it, and mapping with choices uses them",
  """The history holds up to five AIGs, each unchanged by what happens to the current AIG afterwards; adding, replacing, reading back, listing and clearing do what they say, out-of-range positions and a full history are warned of and
     change nothing, and reading a new file empties it. Mapping with choices maps the AIGs in the history, giving the area and depth the library gives for them.""",
  ["inputs", "histories"], "sequences of 2-20 commands, mostly history operations between passes, over 1-2 random circuits",
  "No test runs the command-line program; stored networks share storage with the current one.",
  [CLI + "history.hpp", CLI + "map_fpga.hpp", CLI + "io/read_aiger.hpp"],
  [("history operations", CLI + "history.hpp"), ("choice mapping", CLI + "map_fpga.hpp")],
  "", "stateful model-based testing: a model of the history and the library on copies as oracle", ["history", "map_fpga -t 1"])

P("C04", "No command line, script or file makes the program crash or hang",
  """Whatever commands, options, arguments, comments, quotes, aliases and included scripts are given, from a script, the command line or typed in, and whether files named exist, are empty, broken or directories, the program ends normally
     in bounded time, with neither an invalid memory access nor an uncaught exception; commands given afterwards still read, optimise, map and write a circuit rightly.""",
  ["inputs", "faults", "histories"], "random and mutated command lines and files x {script, command line, typed} x program options",
  "No test runs the command-line program, let alone with wrong input.",
  ["cli/imap.cpp", "libs/alice/include/alice/cli.hpp", "libs/alice/include/alice/command.hpp", "libs/lorina/lorina/detail/utils.hpp", CLI + "io/read_aiger.hpp", CLI + "refactor.hpp"],
  [("command parsing", "libs/alice/include/alice/cli.hpp"), ("file reading", "libs/lorina/lorina/aiger.hpp")],
  "Shell escapes (!command and command substitution in file names) and scripts including themselves are left out.", "fuzzing of command lines, scripts and files under AddressSanitizer, with a recovery check", ["exit status", "files written after"])

P("O07", "Resynthesis engines build exactly the function they are given",
  """Given a function and signals for its variables, each resynthesis engine (table-driven rewriting of up to four variables, sum-of-products factoring and rebalancing) offers only signals that compute that function of those
     signals. The algebra behind them is exact: dividing a cover by a literal, a cube or a kernel gives quotient and remainder that multiply and add up to the cover again, and every kernel or divisor found divides it.""",
  ["inputs", "configurations"], "all functions of 1-4 variables, random covers of up to 8 variables, over signals of random networks with inverted, equal and constant operands",
  "The tests run whole passes on a few circuits; particular NPN classes, phases and kernels occur only for particular functions.",
  [OPT + "detail/node_rewriting.hpp", OPT + "detail/database_npn4_aig.hpp", OPT + "detail/sop_refactoring.hpp", OPT + "balancing/sop_balancing.hpp"],
  [("NPN canonisation and database", OPT + "detail/node_rewriting.hpp"), ("kernels and division", OPT + "detail/sop_refactoring.hpp"), ("arrival-driven cube trees", OPT + "balancing/sop_balancing.hpp")],
  "", "property-based testing: built structures evaluated on all patterns; multiplication as inverse of division", ["node_rewriting", "sop_factoring", "sop_rebalancing"])

P("O08", "Dereferencing a cone measures it and referencing restores it",
  """Removing the references of a node's cone down to given leaves counts exactly the gates that nothing else needs (its maximum fanout-free cone, stopped at the leaves), and referencing it again counts the same and
     restores every reference count, for every network and set of leaves, alone and nested.""",
  ["inputs", "histories"], "random AIGs, every root, leaves from cuts and cones, alone or nested",
  "The gain estimates of the passes rest on it; no test calls it.",
  [ALG + "ref_deref.hpp"], [("recursive reference counting", ALG + "ref_deref.hpp")],
  "", "property-based testing against an independent computation of fanout-free cones, and round trips", ["deref_node_recursive()", "ref_node_recursive()"])

P("M07", "LUT mapping is as shallow as any mapping can be",
  """For every and-inverter graph for which no cut has to be dropped to keep to the cut limit, the mapping produced has the smallest depth that any mapping into LUTs of the chosen size has, whatever rounds of area
     recovery follow, and this is the delay reported.""",
  ["inputs", "configurations"], "all AIGs with at most as many cuts per node as the limit x {LUT size 2-6, flow and area iterations, zero gain}",
  "No test knows the optimum; recovery rounds that let a critical path slip need particular circuits.",
  [ALG + "klut_mapping.hpp", "include/database/cut/cut_enumeration.hpp"], [("depth-oriented round and required times in later rounds", ALG + "klut_mapping.hpp")],
  "", "property-based testing: depth against labels computed from all cuts, enumerated independently", ["klut_mapping()"])

P("C05", "The Python interface does what the shell does",
  """Every sequence of calls of EngineIMAP and of the imap module, with any keyword arguments left out or given, prints the same statistics, history sizes and warnings and writes the same files as the shell given the same commands with
     these options spelled out, defaults being the documented ones. The sequence file an EngineIMAP writes holds the commands added, in order, and run by the shell reproduces the network.""",
  ["inputs", "histories", "configurations"], "sequences of 2-14 calls through the engine or the module with random keyword arguments on random circuits",
  "No test loads the Python module.",
  ["ai_infra/imap_engine.py", "cli/imap.cpp", "libs/alice/include/alice/detail/python.hpp", "libs/alice/include/alice/api.hpp", CLI + "history.hpp", CLI + "map_fpga.hpp"],
  [("keyword arguments to options", "libs/alice/include/alice/detail/python.hpp"), ("engine methods", "ai_infra/imap_engine.py")],
  "The bundled pybind11 is patched in the build folder (two debugging blocks) to compile for Python 3.12. lut_opt's cut size and map_fpga's local iterations, whose documented defaults contradict the code, are always given.",
  "differential property-based testing: Python against the shell", ["EngineIMAP", "imap module"])

P("C06", "The configured flow maps the circuit and reports the result truthfully",
  """For every circuit, in one AIGER file or a folder with two equivalent versions, and every configuration, the mapping flow writes a Verilog module and a LUT netlist that compute the circuit's functions under the file's port names, with
     LUTs of at most the configured size, where asked (folders are created) or beside the input; area, delay and LUT statistics reported are those of the netlist; verification, when on, confirms it. Broken input is reported, not fatal.""",
  ["inputs", "configurations", "faults"], "random circuits with structural variants x configuration files x output places",
  "No test runs the flow.",
  ["include/flow/flow_manager.hpp", "include/flow/configer.hpp", ALG + "choice_miter.hpp", ALG + "choice_computation.hpp", ALG + "klut_mapping.hpp", IO + "writer.hpp"],
  [("choice synthesis", "include/flow/flow_manager.hpp"), ("merging", ALG + "choice_miter.hpp")],
  "Delay is compared with inverters left out, as the mapper counts it.", "property-based testing: files parsed and evaluated by independent readers", ["flow_manager::run()"])
