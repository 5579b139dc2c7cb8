"""Writes /verif/properties.jsonl (the single place where the wording of the properties is kept)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


EV = "netomaton/evolution.py"
ST = "netomaton/state.py"

p("C01", "Synchronous update: rules see only the previous timestep",
  "When the activity of a node is computed for timestep t, everything the activity rule is shown about activities (the "
  "node's own, its neighbours', those of all nodes) is the activity recorded for timestep t-1. Nothing computed during "
  "timestep t is visible to the rule for any other node of timestep t, whatever the order in which nodes are processed.",
  ["inputs", "configurations", "histories"],
  "every network, rule, update order and history; every position of a node in the processing order",
  "tests run a few fixed networks whose node order is the insertion order; an update that leaks new values can only be "
  "seen when a node is processed after a neighbour and the rule reads that neighbour",
  [EV], [("evolve keeps the previous and current activities apart", "evolution.py: evolve, do_activity_rule")],
  ["the NodeContext given to the activity rule"])

p("C02", "Each update order uses the documented versions of network and activities",
  "With A(t) the network and S(t) the activities: under ACTIVITIES_FIRST the activity rule is given A(t), S(t) and the "
  "topology rule A(t), S(t+1); under TOPOLOGY_FIRST the topology rule is given A(t), S(t) and the activity rule "
  "A(t+1), S(t); under SYNCHRONOUS both rules are given A(t), S(t). Any other update order is rejected.",
  ["configurations", "histories", "inputs"], "every update order, network, topology rule and number of timesteps",
  "SYNCHRONOUS has no test at all (TODO in the source) and the others are tested on rules that mostly do not tell the "
  "versions apart",
  [EV], [("dispatch on update_order", "evolution.py: evolve")],
  ["NodeContext and TopologyContext arguments", "trajectory"])

p("C03", "A trajectory has one state per timestep, in order, and the clock is shared",
  "evolve with timesteps=T returns exactly max(T, 1) states, and with a list of N inputs N+1 states, in time order and "
  "starting with the initial conditions and given network; an input function is asked for timesteps 1, 2, ... until it "
  "returns None. Every callback invoked for a timestep (input function, activity rule, perturbation, topology rule) is "
  "told that same timestep number, and the state it contributes to is the one at that index of the trajectory.",
  ["inputs", "configurations", "histories"], "every number of timesteps, input kind and option",
  "tests use a handful of values for timesteps and never check every callback's clock against the trajectory index",
  [EV], [("evolution loop and input functions", "evolution.py: evolve, _TimestepInputFunction, _ListInputFunction")],
  ["returned list", "ctx.timestep"])

p("C04", "A node's context describes its incoming neighbourhood in the network in force",
  "For every node, the neighbour labels shown to the activity rule are the sources of the node's incoming connections "
  "in the network in force at that step (in the order of its rotation system, when it has one), the neighbourhood "
  "activities list those neighbours' activities in the same order, and the connection states are that node's own "
  "incoming connections. This stays true after the network changes through a topology rule or through nodes being "
  "added or removed.",
  ["inputs", "histories", "configurations"], "every network, every sequence of topology changes, every update order",
  "a stale or misaligned neighbourhood only shows in histories where the network changed in a particular step and the "
  "rule depends on the order or weights",
  [EV, ST], [("neighbourhood lookup", "evolution.py: do_activity_rule, _get_neighbour_labels, _get_neighbourhood_map")],
  ["NodeContext.neighbour_labels, neighbourhood_activities, connection_states"])

p("C05", "Inputs and perturbations reach exactly the node they belong to",
  "The input shown to the activity rule and to the perturbation for a node is that node's entry of the current "
  "timestep's input (or the whole input, if it isn't a sequence; None when only timesteps are given). When a perturbation is "
  "given it is invoked once for each node that remains, with that node's newly computed activity, and what it returns "
  "is that node's activity for the timestep.",
  ["inputs", "configurations"], "every input kind, perturbation, memoization setting and network",
  "tests use perturbations of a single node and few combinations of input, memoization and node removal",
  [EV], [("per-node input and perturbation", "evolution.py: do_activity_rule")], ["NodeContext.input, PerturbationContext"])

p("C06", "Nodes added or removed by a rule change network and activities together",
  "Under ACTIVITIES_FIRST, after a timestep in which rules asked for nodes to be added or removed, the next network "
  "lacks exactly the removed nodes and has the added ones with their requested state and outgoing links, and the "
  "activities of that timestep have exactly one entry per node of that network. In the other update orders such "
  "requests change neither the network nor the activities.",
  ["inputs", "histories", "configurations"], "every sequence of additions and removals, by the node itself or by others",
  "tests only remove the node whose rule is running and add nodes via two built-in models",
  [EV, "netomaton/substitution_system.py"],
  [("application of added_nodes and removed_nodes", "evolution.py: evolve_activities, evolve_topology")],
  ["trajectory[t].activities, trajectory[t].network"])

p("C07", "Past activities are a sliding window over the preceding timesteps",
  "When k past conditions are given, the context of the rule at timestep t holds k past activities: the last of them is "
  "the activities at timestep t-2 and, going backwards, each is one timestep older, with the past conditions standing "
  "for the timesteps before the initial one. When none are given there are no past activities.",
  ["inputs", "histories", "configurations"], "every k, t and option (including activities that are not persisted)",
  "tests use k of 1 and 2 on short evolutions with persisted activities",
  [EV], [("window of past activities", "evolution.py: evolve, _get_past_activities")], ["NodeContext.past_activities"])

p("C08", "Memoization does not change results",
  "With memoize=True a rule's cached result is reused only for a context with an equal memoization key, and what is "
  "returned is what the rule returned for that key in the same evolve call, before perturbation. The default key tells "
  "apart neighbourhoods that differ in the multiset of their activities, and also in their order when the network has a "
  "rotation system; a key given by the user is the one used.",
  ["inputs", "histories", "configurations"], "every rule without state, network, key and sequence of evolve calls",
  "tests compare memoized with plain evolutions for a few rules in single calls; collisions need particular "
  "neighbourhoods, and leakage needs several calls in one process",
  [EV], [("memo table and keys", "evolution.py: _get_memoized, _OrderedMemoizationKey, _UnorderedMemoizationKey, evolve")],
  ["number and arguments of rule invocations, activities"])

p("C09", "evolve leaves the caller's objects alone and recorded states stay as recorded",
  "evolve itself never modifies the initial conditions, past conditions, inputs or network it is given, nor a network or "
  "activities already recorded in the trajectory: a state that was recorded for a timestep is not changed by later "
  "timesteps. When copy_network is True, the network given to a topology rule is a copy that shares nothing with the "
  "network recorded for the previous timestep.",
  ["inputs", "histories", "configurations"], "every evolution, option and rule that modifies the network it is given",
  "aliasing is invisible unless a test keeps the earlier object and compares it afterwards, on the path that aliases",
  [EV, ST], [("fresh containers and copies", "evolution.py: evolve, evolve_topology; state.py: Network.copy")],
  ["caller's arguments after the call", "earlier states of the trajectory"])

p("C10", "Persistence and compression options do not influence the dynamics",
  "persist_activities, persist_network and compression determine only what each State holds: the contexts that rules "
  "are given, the activities they produce and the networks that evolve are the same whatever these options are. A State "
  "holds the timestep's activities (or network) exactly when its persistence is on, and reading it gives back what was stored.",
  ["configurations", "histories", "inputs"], "every combination of the three options with every other option",
  "tests cover single options with one or two models, not their combinations with past conditions or node changes",
  [EV, ST], [("State storage", "state.py: State; evolution.py: evolve_activities, evolve_topology")],
  ["contexts given to rules", "State.activities, State.network"])

p("C11", "Activities hold plain Python values, however they were produced",
  "Every NumPy scalar that enters the system as an initial condition (list, array or dict), the result of an activity "
  "rule (memoized or not), the result of a perturbation, or the state of an added node is converted to the corresponding "
  "Python value before it is recorded or shown to a rule.",
  ["inputs", "configurations"], "every way an activity can enter the system, with every option",
  "each entry point needs its own test with a NumPy scalar; only some have one",
  [EV], [("check_np", "evolution.py: evolve, do_activity_rule, _get_memoized, evolve_activities, evolve_topology")],
  ["trajectory activities, node contexts"])

p("C12", "Degrees and incidence of a Network agree after every mutation",
  "After any sequence of additions, updates and removals of nodes and edges (including parallel edges and self-loops), "
  "each node's in-degree equals the number of edges arriving at it, its out-degree the number leaving it, and the record "
  "of where its edges go lists every edge that leaves it once per edge. Removing a node removes "
  "every edge that touches it, and removing an edge removes every parallel edge from that source to that target, and "
  "nothing else.",
  ["histories", "inputs"], "every sequence of mutations on every network",
  "tests run short hand-written sequences; imbalances need parallel edges, self-loops or both in combination with removal",
  [ST], [("degree counters and incoming/outgoing records", "state.py: Network.add_edge, remove_edge, remove_node")],
  ["Network.in_degree, out_degree, degree, in_edges, edges"],
  [("in/out", "degree counters of a node", "state.py: Network"), ("incoming/outgoing", "incidence records of a node", "state.py: Network")])

p("C13", "Edges are directed and their attributes belong to them alone",
  "An edge added from i to j is found as an incoming edge of j with source i, and nowhere else; "
  "both endpoints exist afterwards and existing nodes, edges and attributes are kept. Each edge has its own attributes "
  "(also the two edges of a bidirectional pair and parallel edges), and an update changes exactly the edges it names.",
  ["histories", "inputs"], "every network and sequence of additions and updates",
  "shared attribute dictionaries or swapped endpoints only show after a later update, or on asymmetric networks",
  [ST], [("edge creation and update", "state.py: Network.add_edge, add_edge_bidir, update_edge, add_node")],
  ["Network.edge, edges, in_edges, has_edge"])

p("C14", "Copies and compressed forms of networks and states are faithful and independent",
  "A copy of a network, and a network or activities read back from a compressed State, has the same nodes, edges, "
  "attributes and degrees as the original and shares no mutable part with it. An empty network or empty activities are "
  "preserved too, and (de)compressing leaves the process's garbage collector as it was, even if it fails.",
  ["inputs", "fault_sequences", "histories"], "every network and activities, including empty ones; failing decompression",
  "tests copy a few non-empty networks and never fail a decompression",
  [ST], [("copy, compress, decompress", "state.py: Network.copy, State, _Compressor")],
  ["Network.copy, State.network, State.activities, gc.isenabled"])

p("C15", "Conversions to and from NetworkX and adjacency matrices preserve the graph",
  "Converting a network to NetworkX or to an adjacency matrix, or building one from either, keeps the node set "
  "(including isolated nodes), the direction and multiplicity of every edge, and node and edge attributes, with row i "
  "and column j of a matrix standing for the edge from i to j and its weight; bookkeeping of the network never appears as an attribute.",
  ["inputs"], "every directed graph, matrix, node order and weight attribute",
  "tests convert small graphs whose matrices are mostly symmetric and without isolated nodes",
  [ST, "netomaton/topology/networks.py"],
  [("conversions", "state.py: from_networkx, to_networkx, to_adjacency_matrix; networks.py: from_adjacency_matrix")],
  ["resulting graph"])

p("C16", "Topology builders create every requested node and symmetric connections",
  "The network returned by a topology builder has exactly the requested nodes, even those without connections; lattices "
  "and bipartite networks have an edge in both directions for every connected pair, with the given edge attributes, and a lattice connects nodes "
  "to themselves exactly when asked to. Boundary conditions and neighbourhood types that are not supported are rejected.",
  ["inputs", "configurations"], "every size, label set and option of every builder",
  "tests build a few medium-sized topologies; degenerate sizes and unsupported options are not among them",
  ["netomaton/topology/networks.py", "netomaton/topology/adjacency.py"],
  [("builders", "networks.py; adjacency.py")], ["returned Network"])

p("C17", "Cellular automaton neighbourhoods have the documented shape on a torus",
  "In a 1D cellular automaton of radius r each cell's neighbours are exactly the cells at distance at most r around the "
  "ring; in 2D they are exactly those of the chosen neighbourhood type (Moore: both coordinates within r; von Neumann: "
  "coordinate distances summing to at most r; Hex with r = 1: the cell and the six around it, odd rows of hexagons being shifted) on the torus. When ordered, the neighbours are presented in increasing "
  "order rotated so that the cell itself is at the center.",
  ["inputs"], "every size, radius and neighbourhood type",
  "tests list the matrices of a few sizes",
  ["netomaton/topology/adjacency.py", "netomaton/topology/networks.py"],
  [("adjacency construction", "adjacency.py: cellular_automaton, cellular_automaton2d; networks.py: _shift_to_center")],
  ["adjacency matrix, rotation system"])

p("C18", "Built-in rules and models do not modify what they are given",
  "The built-in activity rules, wrappers and models do not modify the context's activities, neighbourhood or connection "
  "states, nor the rule tables, lists and configurations passed to them by the caller, apart from the documented "
  "in-place perturbation of a table by the table-walk-through method.",
  ["inputs", "histories"], "every rule, model, context and argument",
  "tests don't compare arguments before and after, and damage to shared activities shows only in later nodes",
  ["netomaton/rules/activity_rule.py", "netomaton/sandpile.py", "netomaton/substitution_system.py", "netomaton/ctrbl_rule.py",
   "netomaton/turing_machine.py", "netomaton/wolfram_physics_model.py", "netomaton/rule_tables.py",
   "netomaton/asynchronous_rule.py", "netomaton/reversible_rule.py", "netomaton/hopfield_net.py",
   "netomaton/fungal_growth_model.py", "netomaton/hopfield_tank_tsp_net.py"],
  [("copies before modification", "all built-in rules and models")], ["arguments after a call"])

p("C19", "Game of Life and Wireworld implement their complete transition tables",
  "For every cell state and every count of live (or electron-head) neighbours, the Game of Life rule and the Wireworld "
  "rule return the state their published transition tables prescribe, and never leave a case without an answer.",
  ["inputs"], "every current state and every neighbourhood", "tests evolve a few patterns, which do not meet every case",
  ["netomaton/rules/activity_rule.py"], [("transition functions", "activity_rule.py: game_of_life_rule, wireworld_rule")],
  ["value returned by the rule"])

p("C20", "Elementary and totalistic rule numbers are decoded by the documented convention",
  "A binary rule reads the neighbourhood as a binary number with its first cell as the most significant bit and returns "
  "the digit of the rule number for it, counting digits from the other end under the NKS scheme; a totalistic rule "
  "returns the base-k digit whose position is the sum of the neighbourhood, the last digit being for sum zero. A totalistic rule number "
  "that is out of range is rejected.",
  ["inputs"], "every rule number, number of colors and neighbourhood", "tests sample a few rule numbers",
  ["netomaton/rules/activity_rule.py"],
  [("rule number decoding", "activity_rule.py: binary_ca_rule, nks_ca_rule, totalistic_ca, bits_to_int, int_to_bits")],
  ["value returned by the rule"])

p("C21", "Rule wrappers: asynchronous and reversible rules",
  "An asynchronous rule applies the wrapped rule only to the node whose turn it is and returns every other node's current "
  "activity unchanged; the turn passes to the next entry of the update order (cyclically) after every node in the order "
  "has been visited, and shuffling only permutes the given entries. A reversible rule returns the wrapped rule's result "
  "XORed with the node's own activity one timestep before the current one.",
  ["inputs", "histories"], "every update order, wrapped rule and sequence of calls",
  "tests use a few orders of consecutive labels starting at zero",
  ["netomaton/asynchronous_rule.py", "netomaton/reversible_rule.py"],
  [("turn keeping", "asynchronous_rule.py"), ("XOR", "reversible_rule.py")], ["value returned by the rule"])

p("C22", "CTRBL rules present neighbours as center, top, right, bottom, left",
  "On the torus of the given dimensions, a CTRBL rule looks up the states of the cell and its upper, right, lower and left "
  "neighbours, in that order; with add_rotations every rotation of the four outer states maps to the same image, and a "
  "combination that is not in the table is rejected.",
  ["inputs"], "every grid dimension (also non-square), rule table and neighbourhood",
  "tests use square grids or symmetric tables that hide transposed neighbours",
  ["netomaton/ctrbl_rule.py"], [("neighbourhood map, rotation system, rotations", "ctrbl_rule.py")],
  ["rule lookups", "rule_table", "neighbourhood_map"])

p("C23", "Turing machines perform one transition per timestep",
  "At each timestep exactly the cell under the head is rewritten, to the symbol the rule table gives for the head's state "
  "and that cell's symbol, and the head takes the table's next state and moves one cell in the table's direction (or "
  "stays); a missing entry is rejected. A head-centric machine halts once it enters the terminating state or the maximum "
  "number of timesteps is reached, and its tape history gains one new tape per step without altering the earlier ones.",
  ["inputs", "histories"], "every rule table, tape, initial head and limit", "tests run three published machines",
  ["netomaton/turing_machine.py"], [("head and tape transitions", "turing_machine.py")],
  ["tape history, head activities"])

p("C24", "Substitution systems rewrite every neighbourhood once, in order",
  "At each timestep each node that has a complete neighbourhood is replaced by new nodes that carry, in order, the "
  "symbols its neighbourhood maps to, constants map to themselves, and every old node is removed; new nodes get labels "
  "never used before and are linked, in order, as the initial string was. Rule maps whose keys have different lengths "
  "are rejected, and the caller's map is not modified.",
  ["inputs", "histories"], "every axiom, rule map and number of timesteps", "tests run a few published systems",
  ["netomaton/substitution_system.py"], [("rewriting through the context", "substitution_system.py")],
  ["trajectory activities and network"])

p("C25", "Wolfram model rewriting consumes matched relations and nothing else",
  "An update scans the relations repeatedly. A scan starts without bindings and takes, for each left-hand relation in turn, the first remaining relation of the same "
  "length that agrees with the bindings so far; a relation that fails to agree leaves no bindings behind. Scanning ends with a scan whose last left-hand relation "
  "finds nothing. Every relation is then either part of one complete match, or kept unchanged ahead of the new relations (those no scan took first, then those of "
  "incomplete scans). Each complete match, in order, adds the right-hand side with the symbols bound by that match, unbound symbols standing for new nodes, numbered on from the "
  "largest node. Reading back a configuration gives its relations in their order, also for the earlier networks of a trajectory; the configuration and rules given stay as they were.",
  ["inputs", "histories"], "every configuration (of non-empty relations), rule (with a non-empty left-hand side) and number of updates", "tests use rules whose matches rarely fail half-way",
  ["netomaton/wolfram_physics_model.py"], [("matching and rewriting", "wolfram_physics_model.py")],
  ["configurations of the trajectory"])

p("C26", "Random rule tables honour lambda, quiescence and isotropy",
  "A generated or perturbed rule table has an entry for every neighbourhood, its reported lambda is the actual fraction "
  "of transitions to non-quiescent states, under strong quiescence uniform neighbourhoods keep mapping to themselves, and under isotropy a "
  "neighbourhood and its mirror image always map to the same state.",
  ["inputs"], "every k, r, lambda, random choice and table", "tests check a few random tables",
  ["netomaton/rule_tables.py"], [("table generation and walk-through", "rule_tables.py")],
  ["returned table and lambda"])

p("C27", "Analysis treats each node's states over time as its sequence",
  "The averaged entropy and mutual information are means, over all nodes, of the measure on that node's states over all "
  "timesteps, each state counting as one symbol; mutual information pairs each state with the one temporal_distance "
  "timesteps later and accepts distances from 1 to less than the number of timesteps. A trajectory of States and the "
  "list of lists of its activities (nodes in label order) give the same result.",
  ["inputs"], "every trajectory, number of nodes and timesteps, and state alphabet",
  "tests use single-digit states and about as many nodes as timesteps",
  ["netomaton/analysis.py", "netomaton/utils.py"], [("axis handling", "analysis.py; utils.py: get_activities_over_time_as_list")],
  ["returned number"])

p("C28", "Entropy and mutual information follow their definitions",
  "The Shannon entropy is -sum p log2 p over the distinct symbols, with p the fraction of positions holding the symbol; "
  "the joint entropy is the same over pairs of symbols at equal positions; mutual information is H(X) + H(Y) - H(X,Y).",
  ["inputs"], "every pair of sequences", "tests compare a few numbers",
  ["netomaton/analysis.py"], [("formulas", "analysis.py")], ["returned number"])

p("C29", "The fungal growth model moves resource along links within its lattice",
  "A link is created only between lattice neighbours that are not yet linked in either direction and of which at least "
  "one holds resource, always leading away from an agent that does; every link's weight is one over its source's "
  "out-degree. An agent's resource is the weighted sum of what its incoming links carry (its own resource if it has "
  "none), plus the absorption rate where it is alive and resource is available.",
  ["inputs", "histories"], "every size, initial condition, resource layer and random choice",
  "the test compares one seeded run",
  ["netomaton/fungal_growth_model.py"], [("topology and activity rules", "fungal_growth_model.py")],
  ["networks and activities of the trajectory"])

p("C30", "Sandpile and Hopfield updates conserve and weigh as documented",
  "In a sandpile a cell loses K grains exactly when it holds at least K and gains one grain per neighbour that does, and "
  "boundary cells of a closed sandpile hold none. A trained Hopfield net's weights are the sums over patterns of products of "
  "the two nodes' values, zero on the diagonal, and a node becomes 1 exactly when its weighted input is at least zero and -1 otherwise.",
  ["inputs"], "every grid, pattern set and activity", "tests compare a few seeded runs",
  ["netomaton/sandpile.py", "netomaton/hopfield_net.py"], [("update rules", "sandpile.py; hopfield_net.py")],
  ["value returned by the rule", "weights"])

p("C31", "Results depend on nothing but arguments and the random generators",
  "No result of the library depends on hidden state shared between calls or objects (module or class variables, mutable "
  "defaults), on the iteration order of sets of strings, the clock, or the environment; randomness is drawn only from "
  "the global random generators where documented, and a seed that is given is used, whatever its value.",
  ["histories", "configurations", "inputs"], "every sequence of calls in one process",
  "tests run each model once per process and cannot see state that survives a call",
  ["netomaton"], [("no module-level or default-argument mutable state", "whole package")], ["repeated calls"])

p("C32", "Plotting and analysis leave data alone and write files only on request",
  "Plotting, animation and analysis functions do not modify the trajectories, networks or lists they are given, and "
  "write to the file system only when asked to save (or to show a network in a browser, in the named file).",
  ["inputs"], "every plotting and analysis function and argument", "plotting is tested with show() stubbed and small inputs",
  ["netomaton/utils.py", "netomaton/hexplot.py", "netomaton/turtle.py", "netomaton/analysis.py", "netomaton/vis/vis_utils.py"],
  [("guarded saves, read-only access", "utils.py, hexplot.py, turtle.py, vis_utils.py")], ["arguments, file system"])

p("C33", "A turtle returns to exactly the state it pushed",
  "pop restores the position and orientation at the matching push, last in first out; moving forward draws one segment "
  "from the old to the new position in the current direction and rotating changes only the orientation.",
  ["histories"], "every sequence of turtle operations", "tests run short sequences",
  ["netomaton/turtle.py"], [("state stack", "turtle.py")], ["position, orientation, trajectory"])

p("C34", "The majority rule returns a most frequent neighbourhood state",
  "The majority rule returns the state that occurs most often in the neighbourhood; if several states are equally "
  "frequent it returns a randomly chosen state of the neighbourhood.",
  ["inputs"], "every neighbourhood", "tests use a few neighbourhoods and ties are random",
  ["netomaton/rules/activity_rule.py"], [("majority_rule", "activity_rule.py")], ["value returned by the rule"])

p("C35", "Langton's loop reproduces itself",
  "From its initial configuration, Langton's loop produces copies of itself and never meets a neighbourhood its rule "
  "table does not define.",
  ["histories"], "every number of timesteps and grid large enough",
  "the test needs a recorded evolution that is not in the repository",
  ["netomaton/langtons_loop.py"], [("rule table data", "langtons_loop.py")], ["trajectory"])

p("C36", "A Hopfield-Tank network's permutation matrix is a valid, short tour",
  "When the Hopfield-Tank net converges, each point has exactly one position in the tour, and the tour is short.",
  ["inputs"], "every set of points and initial activities", "tests use one recorded instance",
  ["netomaton/hopfield_tank_tsp_net.py"], [("dynamics and tour reading", "hopfield_tank_tsp_net.py")], ["tour"])

p("C37", "A trained Hopfield net settles into a training pattern",
  "Starting near a stored pattern, the evolution of a trained Hopfield net converges to a stored pattern.",
  ["inputs", "histories"], "every pattern set within capacity and starting pattern", "tests use two recorded patterns",
  ["netomaton/hopfield_net.py"], [("energy descent", "hopfield_net.py")], ["trajectory"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
